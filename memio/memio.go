// Package memio holds the environment models: readers, writers and
// connections whose fragmentation and failures are decided by the harness.
package memio

import (
	"errors"
	"io"
)

var ErrInjected = errors.New("injected failure")

// FragReader returns data in pieces of at most Max bytes (0 = unlimited).
// After the data it returns End (io.EOF by default); with DataErr the last
// piece is returned together with the error, as io.Reader permits.
type FragReader struct {
	Data    []byte
	Max     int
	DataErr bool
	End     error
	// Cuts are offsets at which a read never crosses.
	Cuts  []int
	Off   int
	Reads int
}

func (r *FragReader) Read(p []byte) (int, error) {
	r.Reads++
	end := r.End
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.Off >= len(r.Data) {
		return 0, end
	}
	n := len(r.Data) - r.Off
	if n > len(p) {
		n = len(p)
	}
	if r.Max > 0 && n > r.Max {
		n = r.Max
	}
	for _, c := range r.Cuts {
		if c > r.Off && c < r.Off+n {
			n = c - r.Off
		}
	}
	copy(p, r.Data[r.Off:r.Off+n])
	r.Off += n
	if r.DataErr && r.Off == len(r.Data) {
		return n, end
	}
	return n, nil
}

// FailWriter records what is written and fails at call number FailAt (1-based, 0 = never).
type FailWriter struct {
	Buf    []byte
	Calls  int
	FailAt int
	Failed bool
}

func (w *FailWriter) Write(p []byte) (int, error) {
	w.Calls++
	if w.FailAt != 0 && w.Calls >= w.FailAt {
		w.Failed = true
		return 0, ErrInjected
	}
	w.Buf = append(w.Buf, p...)
	return len(p), nil
}
