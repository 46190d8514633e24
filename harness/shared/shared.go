// Package shared is the case loop of the conformance drivers: one JSON case per input line,
// one JSON record {"case":..,"events":[..]} per output line.
package shared

import (
	"bufio"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"syscall"
	"time"
)

type Ev = map[string]interface{}

// Loop runs handle for every case; a panic on the calling goroutine becomes a Crash event.
func Loop(handle func(raw json.RawMessage, emit func(Ev))) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	// what the code under test prints does not belong to the protocol
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var evs []Ev
			one(line, handle, func(e Ev) { evs = append(evs, e) })
			b, merr := json.Marshal(map[string]interface{}{"events": evs})
			if merr != nil { // a value that is not a number
				for i := range evs {
					evs[i] = finite(reflect.ValueOf(evs[i])).(map[string]interface{})
				}
				b, merr = json.Marshal(map[string]interface{}{"events": evs})
			}
			if merr != nil {
				fmt.Fprintln(os.Stderr, "driver: cannot encode events:", merr)
				os.Exit(3)
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

// finite is v with every value that is not a finite number replaced by a number no correct outcome contains.
func finite(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return finite(v.Elem())
	case reflect.Float64, reflect.Float32:
		if f := v.Float(); math.IsNaN(f) || math.IsInf(f, 0) {
			return -9e99
		}
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = finite(v.MapIndex(k))
		}
		return m
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && (v.IsNil() || v.Type().Elem().Kind() == reflect.Uint8) {
			break
		}
		l := make([]interface{}, v.Len())
		for i := range l {
			l[i] = finite(v.Index(i))
		}
		return l
	}
	return v.Interface()
}

func one(line []byte, handle func(json.RawMessage, func(Ev)), emit func(Ev)) {
	defer func() {
		if r := recover(); r != nil {
			emit(Ev{"ev": "Crash", "how": fmt.Sprint(r), "stack": string(debug.Stack())})
		}
	}()
	handle(json.RawMessage(line), emit)
}

func B64(s string) string {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func ToB64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func Err(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error"
}

// Reader is an in-memory io.ReadSeeker that returns at most Chunk bytes per Read (0: as many as
// fit), optionally together with io.EOF, and can fail.
type Reader struct {
	Data      []byte
	Pos       int64
	Chunk     int
	EOFWith   bool          // deliver io.EOF together with the last bytes
	FailPass  int           // pass (number of Seek calls so far, 1-based) in which to fail; 0: never
	FailAt    int64         // byte offset at which reading fails
	FailSeek  bool          // fail the Seek itself
	FailWith  bool          // the failing Read also delivers the bytes before the failure
	Delay     time.Duration // before every Read
	Seeks     int
	Err       error
	OnSeek    func(n int)
	Fired     bool
	AfterRead func()
}

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	r.Seeks++
	if r.OnSeek != nil {
		r.OnSeek(r.Seeks)
	}
	if r.FailSeek && r.Seeks == r.FailPass {
		r.Fired = true
		return 0, r.Err
	}
	switch whence {
	case io.SeekStart:
		r.Pos = off
	case io.SeekCurrent:
		r.Pos += off
	case io.SeekEnd:
		r.Pos = int64(len(r.Data)) + off
	}
	return r.Pos, nil
}

func (r *Reader) Read(p []byte) (int, error) {
	if r.Delay > 0 {
		time.Sleep(r.Delay)
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := int64(len(r.Data))
	fails := !r.FailSeek && r.FailPass != 0 && r.Seeks == r.FailPass
	if fails && r.FailAt < end {
		end = r.FailAt
	}
	if r.Pos >= end {
		if fails {
			r.Fired = true
			return 0, r.Err
		}
		return 0, io.EOF
	}
	n := int64(len(p))
	if r.Chunk > 0 && n > int64(r.Chunk) {
		n = int64(r.Chunk)
	}
	if n > end-r.Pos {
		n = end - r.Pos
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if fails && r.FailWith && r.Pos == end {
		r.Fired = true
		return int(n), r.Err
	}
	if r.EOFWith && !fails && r.Pos == int64(len(r.Data)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

// Failures are errors a source of bytes may fail with; none of them means that the source has ended.
var Failures = []error{errors.New("injected failure"), io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, os.ErrClosed, os.ErrNotExist,
	os.ErrDeadlineExceeded, syscall.EIO, syscall.EISDIR, syscall.ENXIO, context.Canceled, context.DeadlineExceeded, bufio.ErrTooLong, io.ErrShortWrite, bufio.ErrBadReadCount,
	&os.PathError{Op: "read", Path: "/input", Err: syscall.EIO}, &os.PathError{Op: "read", Path: "/input", Err: os.ErrClosed}, errors.New("EOF"), errors.New("")}

func Failure(kind int) error { return Failures[kind%len(Failures)] }
