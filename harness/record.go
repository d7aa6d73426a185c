package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/pjbgf/sha1cd/ubc"
)

func maskGo(w *[80]uint32) uint32 { return ubc.CalculateDvMask(w) }

type record struct {
	Case json.RawMessage `json:"c"`
	Tr   []string        `json:"t"`
}

// recorder writes cases with their transcripts for other builds to repeat.
type recorder struct {
	f *os.File
	w *bufio.Writer
}

func newRecorder(path string) *recorder {
	if path == "" {
		return nil
	}
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return &recorder{f, bufio.NewWriter(f)}
}

func (r *recorder) add(c any) {
	if r == nil {
		return
	}
	b, _ := json.Marshal(c)
	l, _ := json.Marshal(record{b, transcript})
	r.w.Write(append(l, '\n'))
}

func (r *recorder) close() {
	if r != nil {
		r.w.Flush()
		r.f.Close()
	}
}

// verify repeats recorded cases.
func verify(p *prop) {
	f, err := os.Open(*fVerify)
	if err != nil {
		fatal(err)
	}
	s := bufio.NewScanner(f)
	s.Buffer(nil, 64<<20)
	for n := 0; s.Scan(); n++ {
		if n >= *fChecks {
			break
		}
		var r record
		if err := json.Unmarshal(s.Bytes(), &r); err != nil {
			fatal(err)
		}
		c, err := p.decode(r.Case)
		if err != nil {
			fatal(err)
		}
		wantTr = r.Tr
		if run(p, c, true) != nil {
			res.Fail.Want = r.Tr
			return
		}
	}
	if err := s.Err(); err != nil {
		fatal(err)
	}
}
