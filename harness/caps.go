package main

// Code generated by gen.py; reader and response-writer types for every
// combination of optional interfaces.

import "net/http"

func (s *src) wrap(stat, seek, at, cl bool) srcReader {
	switch {
	case !stat && !seek && !at && !cl:
		return &struct {
			capR
		}{capR{s}}
	case !stat && !seek && !at && cl:
		return &struct {
			capR
			capClose
		}{capR{s}, capClose{s}}
	case !stat && !seek && at && !cl:
		return &struct {
			capR
			capAt
		}{capR{s}, capAt{s}}
	case !stat && !seek && at && cl:
		return &struct {
			capR
			capAt
			capClose
		}{capR{s}, capAt{s}, capClose{s}}
	case !stat && seek && !at && !cl:
		return &struct {
			capR
			capSeek
		}{capR{s}, capSeek{s}}
	case !stat && seek && !at && cl:
		return &struct {
			capR
			capSeek
			capClose
		}{capR{s}, capSeek{s}, capClose{s}}
	case !stat && seek && at && !cl:
		return &struct {
			capR
			capSeek
			capAt
		}{capR{s}, capSeek{s}, capAt{s}}
	case !stat && seek && at && cl:
		return &struct {
			capR
			capSeek
			capAt
			capClose
		}{capR{s}, capSeek{s}, capAt{s}, capClose{s}}
	case stat && !seek && !at && !cl:
		return &struct {
			capR
			capStat
		}{capR{s}, capStat{s}}
	case stat && !seek && !at && cl:
		return &struct {
			capR
			capStat
			capClose
		}{capR{s}, capStat{s}, capClose{s}}
	case stat && !seek && at && !cl:
		return &struct {
			capR
			capStat
			capAt
		}{capR{s}, capStat{s}, capAt{s}}
	case stat && !seek && at && cl:
		return &struct {
			capR
			capStat
			capAt
			capClose
		}{capR{s}, capStat{s}, capAt{s}, capClose{s}}
	case stat && seek && !at && !cl:
		return &struct {
			capR
			capStat
			capSeek
		}{capR{s}, capStat{s}, capSeek{s}}
	case stat && seek && !at && cl:
		return &struct {
			capR
			capStat
			capSeek
			capClose
		}{capR{s}, capStat{s}, capSeek{s}, capClose{s}}
	case stat && seek && at && !cl:
		return &struct {
			capR
			capStat
			capSeek
			capAt
		}{capR{s}, capStat{s}, capSeek{s}, capAt{s}}
	case stat && seek && at && cl:
		return &struct {
			capR
			capStat
			capSeek
			capAt
			capClose
		}{capR{s}, capStat{s}, capSeek{s}, capAt{s}, capClose{s}}
	}
	panic("unreachable")
}

// wrapX is wrap with further methods (capX).
func (s *src) wrapX(stat, seek, at, cl bool) srcReader {
	switch {
	case !stat && !seek && !at && !cl:
		return &struct {
			capX
		}{capX{capR{s}}}
	case !stat && !seek && !at && cl:
		return &struct {
			capX
			capClose
		}{capX{capR{s}}, capClose{s}}
	case !stat && !seek && at && !cl:
		return &struct {
			capX
			capAt
		}{capX{capR{s}}, capAt{s}}
	case !stat && !seek && at && cl:
		return &struct {
			capX
			capAt
			capClose
		}{capX{capR{s}}, capAt{s}, capClose{s}}
	case !stat && seek && !at && !cl:
		return &struct {
			capX
			capSeek
		}{capX{capR{s}}, capSeek{s}}
	case !stat && seek && !at && cl:
		return &struct {
			capX
			capSeek
			capClose
		}{capX{capR{s}}, capSeek{s}, capClose{s}}
	case !stat && seek && at && !cl:
		return &struct {
			capX
			capSeek
			capAt
		}{capX{capR{s}}, capSeek{s}, capAt{s}}
	case !stat && seek && at && cl:
		return &struct {
			capX
			capSeek
			capAt
			capClose
		}{capX{capR{s}}, capSeek{s}, capAt{s}, capClose{s}}
	case stat && !seek && !at && !cl:
		return &struct {
			capX
			capStat
		}{capX{capR{s}}, capStat{s}}
	case stat && !seek && !at && cl:
		return &struct {
			capX
			capStat
			capClose
		}{capX{capR{s}}, capStat{s}, capClose{s}}
	case stat && !seek && at && !cl:
		return &struct {
			capX
			capStat
			capAt
		}{capX{capR{s}}, capStat{s}, capAt{s}}
	case stat && !seek && at && cl:
		return &struct {
			capX
			capStat
			capAt
			capClose
		}{capX{capR{s}}, capStat{s}, capAt{s}, capClose{s}}
	case stat && seek && !at && !cl:
		return &struct {
			capX
			capStat
			capSeek
		}{capX{capR{s}}, capStat{s}, capSeek{s}}
	case stat && seek && !at && cl:
		return &struct {
			capX
			capStat
			capSeek
			capClose
		}{capX{capR{s}}, capStat{s}, capSeek{s}, capClose{s}}
	case stat && seek && at && !cl:
		return &struct {
			capX
			capStat
			capSeek
			capAt
		}{capX{capR{s}}, capStat{s}, capSeek{s}, capAt{s}}
	case stat && seek && at && cl:
		return &struct {
			capX
			capStat
			capSeek
			capAt
			capClose
		}{capX{capR{s}}, capStat{s}, capSeek{s}, capAt{s}, capClose{s}}
	}
	panic("unreachable")
}

func (w *fakeW) wrap(m int) http.ResponseWriter {
	switch m {
	case 0:
		return &struct {
			wBase
		}{wBase{w}}
	case 1:
		return &struct {
			wBase
			wFlush
		}{wBase{w}, wFlush{w}}
	case 2:
		return &struct {
			wBase
			wHijack
		}{wBase{w}, wHijack{w}}
	case 3:
		return &struct {
			wBase
			wFlush
			wHijack
		}{wBase{w}, wFlush{w}, wHijack{w}}
	case 4:
		return &struct {
			wBase
			wNotify
		}{wBase{w}, wNotify{w}}
	case 5:
		return &struct {
			wBase
			wFlush
			wNotify
		}{wBase{w}, wFlush{w}, wNotify{w}}
	case 6:
		return &struct {
			wBase
			wHijack
			wNotify
		}{wBase{w}, wHijack{w}, wNotify{w}}
	case 7:
		return &struct {
			wBase
			wFlush
			wHijack
			wNotify
		}{wBase{w}, wFlush{w}, wHijack{w}, wNotify{w}}
	case 8:
		return &struct {
			wBase
			wReadFrom
		}{wBase{w}, wReadFrom{w}}
	case 9:
		return &struct {
			wBase
			wFlush
			wReadFrom
		}{wBase{w}, wFlush{w}, wReadFrom{w}}
	case 10:
		return &struct {
			wBase
			wHijack
			wReadFrom
		}{wBase{w}, wHijack{w}, wReadFrom{w}}
	case 11:
		return &struct {
			wBase
			wFlush
			wHijack
			wReadFrom
		}{wBase{w}, wFlush{w}, wHijack{w}, wReadFrom{w}}
	case 12:
		return &struct {
			wBase
			wNotify
			wReadFrom
		}{wBase{w}, wNotify{w}, wReadFrom{w}}
	case 13:
		return &struct {
			wBase
			wFlush
			wNotify
			wReadFrom
		}{wBase{w}, wFlush{w}, wNotify{w}, wReadFrom{w}}
	case 14:
		return &struct {
			wBase
			wHijack
			wNotify
			wReadFrom
		}{wBase{w}, wHijack{w}, wNotify{w}, wReadFrom{w}}
	case 15:
		return &struct {
			wBase
			wFlush
			wHijack
			wNotify
			wReadFrom
		}{wBase{w}, wFlush{w}, wHijack{w}, wNotify{w}, wReadFrom{w}}
	case 16:
		return &struct {
			wBase
			wPush
		}{wBase{w}, wPush{w}}
	case 17:
		return &struct {
			wBase
			wFlush
			wPush
		}{wBase{w}, wFlush{w}, wPush{w}}
	case 18:
		return &struct {
			wBase
			wHijack
			wPush
		}{wBase{w}, wHijack{w}, wPush{w}}
	case 19:
		return &struct {
			wBase
			wFlush
			wHijack
			wPush
		}{wBase{w}, wFlush{w}, wHijack{w}, wPush{w}}
	case 20:
		return &struct {
			wBase
			wNotify
			wPush
		}{wBase{w}, wNotify{w}, wPush{w}}
	case 21:
		return &struct {
			wBase
			wFlush
			wNotify
			wPush
		}{wBase{w}, wFlush{w}, wNotify{w}, wPush{w}}
	case 22:
		return &struct {
			wBase
			wHijack
			wNotify
			wPush
		}{wBase{w}, wHijack{w}, wNotify{w}, wPush{w}}
	case 23:
		return &struct {
			wBase
			wFlush
			wHijack
			wNotify
			wPush
		}{wBase{w}, wFlush{w}, wHijack{w}, wNotify{w}, wPush{w}}
	case 24:
		return &struct {
			wBase
			wReadFrom
			wPush
		}{wBase{w}, wReadFrom{w}, wPush{w}}
	case 25:
		return &struct {
			wBase
			wFlush
			wReadFrom
			wPush
		}{wBase{w}, wFlush{w}, wReadFrom{w}, wPush{w}}
	case 26:
		return &struct {
			wBase
			wHijack
			wReadFrom
			wPush
		}{wBase{w}, wHijack{w}, wReadFrom{w}, wPush{w}}
	case 27:
		return &struct {
			wBase
			wFlush
			wHijack
			wReadFrom
			wPush
		}{wBase{w}, wFlush{w}, wHijack{w}, wReadFrom{w}, wPush{w}}
	case 28:
		return &struct {
			wBase
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 29:
		return &struct {
			wBase
			wFlush
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, wFlush{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 30:
		return &struct {
			wBase
			wHijack
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, wHijack{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 31:
		return &struct {
			wBase
			wFlush
			wHijack
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, wFlush{w}, wHijack{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	}
	panic("unreachable")
}

// wrapOver is like wrap; the writer also has Unwrap and WriteString, as the
// writers of middleware often do.
func (w *fakeW) wrapOver(m int, inner http.ResponseWriter) http.ResponseWriter {
	o := wOver{w, inner}
	switch m {
	case 0:
		return &struct {
			wBase
			wOver
		}{wBase{w}, o}
	case 1:
		return &struct {
			wBase
			wOver
			wFlush
		}{wBase{w}, o, wFlush{w}}
	case 2:
		return &struct {
			wBase
			wOver
			wHijack
		}{wBase{w}, o, wHijack{w}}
	case 3:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
		}{wBase{w}, o, wFlush{w}, wHijack{w}}
	case 4:
		return &struct {
			wBase
			wOver
			wNotify
		}{wBase{w}, o, wNotify{w}}
	case 5:
		return &struct {
			wBase
			wOver
			wFlush
			wNotify
		}{wBase{w}, o, wFlush{w}, wNotify{w}}
	case 6:
		return &struct {
			wBase
			wOver
			wHijack
			wNotify
		}{wBase{w}, o, wHijack{w}, wNotify{w}}
	case 7:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wNotify
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wNotify{w}}
	case 8:
		return &struct {
			wBase
			wOver
			wReadFrom
		}{wBase{w}, o, wReadFrom{w}}
	case 9:
		return &struct {
			wBase
			wOver
			wFlush
			wReadFrom
		}{wBase{w}, o, wFlush{w}, wReadFrom{w}}
	case 10:
		return &struct {
			wBase
			wOver
			wHijack
			wReadFrom
		}{wBase{w}, o, wHijack{w}, wReadFrom{w}}
	case 11:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wReadFrom
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wReadFrom{w}}
	case 12:
		return &struct {
			wBase
			wOver
			wNotify
			wReadFrom
		}{wBase{w}, o, wNotify{w}, wReadFrom{w}}
	case 13:
		return &struct {
			wBase
			wOver
			wFlush
			wNotify
			wReadFrom
		}{wBase{w}, o, wFlush{w}, wNotify{w}, wReadFrom{w}}
	case 14:
		return &struct {
			wBase
			wOver
			wHijack
			wNotify
			wReadFrom
		}{wBase{w}, o, wHijack{w}, wNotify{w}, wReadFrom{w}}
	case 15:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wNotify
			wReadFrom
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wNotify{w}, wReadFrom{w}}
	case 16:
		return &struct {
			wBase
			wOver
			wPush
		}{wBase{w}, o, wPush{w}}
	case 17:
		return &struct {
			wBase
			wOver
			wFlush
			wPush
		}{wBase{w}, o, wFlush{w}, wPush{w}}
	case 18:
		return &struct {
			wBase
			wOver
			wHijack
			wPush
		}{wBase{w}, o, wHijack{w}, wPush{w}}
	case 19:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wPush
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wPush{w}}
	case 20:
		return &struct {
			wBase
			wOver
			wNotify
			wPush
		}{wBase{w}, o, wNotify{w}, wPush{w}}
	case 21:
		return &struct {
			wBase
			wOver
			wFlush
			wNotify
			wPush
		}{wBase{w}, o, wFlush{w}, wNotify{w}, wPush{w}}
	case 22:
		return &struct {
			wBase
			wOver
			wHijack
			wNotify
			wPush
		}{wBase{w}, o, wHijack{w}, wNotify{w}, wPush{w}}
	case 23:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wNotify
			wPush
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wNotify{w}, wPush{w}}
	case 24:
		return &struct {
			wBase
			wOver
			wReadFrom
			wPush
		}{wBase{w}, o, wReadFrom{w}, wPush{w}}
	case 25:
		return &struct {
			wBase
			wOver
			wFlush
			wReadFrom
			wPush
		}{wBase{w}, o, wFlush{w}, wReadFrom{w}, wPush{w}}
	case 26:
		return &struct {
			wBase
			wOver
			wHijack
			wReadFrom
			wPush
		}{wBase{w}, o, wHijack{w}, wReadFrom{w}, wPush{w}}
	case 27:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wReadFrom
			wPush
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wReadFrom{w}, wPush{w}}
	case 28:
		return &struct {
			wBase
			wOver
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, o, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 29:
		return &struct {
			wBase
			wOver
			wFlush
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, o, wFlush{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 30:
		return &struct {
			wBase
			wOver
			wHijack
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, o, wHijack{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	case 31:
		return &struct {
			wBase
			wOver
			wFlush
			wHijack
			wNotify
			wReadFrom
			wPush
		}{wBase{w}, o, wFlush{w}, wHijack{w}, wNotify{w}, wReadFrom{w}, wPush{w}}
	}
	panic("unreachable")
}
