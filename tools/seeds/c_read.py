import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a_root.py')).items() if k in ('demo', 'LC')})
SRC = '''	s := &zsrc{data: []byte("0123456789"), short: %s}
'''
def d(body):
    return demo(body, pkg='internal', imp='"bufio"\n\t"bytes"\n\t"io"\n\t"errors"') + '''
var (
	_ = bufio.NewReader
	_ = bytes.NewReader
	_ io.Reader
	_ = errors.New
)

type zsrc struct {
	data []byte
	pos  int
	bad  bool
}

func (s *zsrc) Read(p []byte) (int, error) {
	if s.bad {
		s.bad = false
		return 0, errors.New("bad")
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if len(p) > 1 {
		p = p[:1]
	}
	n := copy(p, s.data[s.pos:])
	s.pos += n
	return n, nil
}

func (s *zsrc) Seek(o int64, w int) (int64, error) {
	switch w {
	case 1:
		o += int64(s.pos)
	case 2:
		o += int64(len(s.data))
	}
	s.pos = int(o)
	return o, nil
}
'''
SEEDS = [
 dict(id='c12-bufrd', property='C12', pkg='internal', edits=[('internal/bufioToReader.go', '''	buf          []byte
	rd           io.Reader
''', '''	rd           io.Reader
	buf          []byte
''')],
  needs='a *bufio.Reader around a reader that can seek', breaks='the reader inside is looked for at the wrong place of the structure',
  demo=d('''	b := bytes.NewReader([]byte("abc"))
	if GetReaderAt(bufio.NewReader(b)) != io.ReaderAt(b) {
		t.Fatal("not used directly")
	}
''')),
 dict(id='c12-order', property='C12', pkg='internal', edits=[('internal/bufioToReader.go', '''	} else if ra, ok := r.(io.ReaderAt); ok {
		return ra
	} else if rs, ok := r.(io.ReadSeeker); ok {
		return &readerAt{ReadSeeker: rs}
	}
''', '''	} else if rs, ok := r.(io.ReadSeeker); ok {
		return &readerAt{ReadSeeker: rs}
	} else if ra, ok := r.(io.ReaderAt); ok {
		return ra
	}
''')],
  needs='a reader that is a ReaderAt and can seek as well, such as a file', breaks='it is read by moving its position and not directly',
  demo=d('''	b := bytes.NewReader([]byte("abc"))
	if GetReaderAt(b) != io.ReaderAt(b) {
		t.Fatal("not used directly")
	}
''')),
 dict(id='c12-trylock', property='C12', pkg='internal', edits=[('internal/bufioToReader.go', '''	r.readMutex.Lock()
''', '''	if len(p) == 0 {
		r.readMutex.Lock()

		return 0, nil
	}

	r.readMutex.Lock()
'''), ('internal/bufioToReader.go', '''type readerAt struct {
	readMutex  sync.Mutex
''', '''type readerAt struct {
	// guards the position
	readMutex sync.Mutex
''')],
  needs='a read into an empty buffer followed by any other read', breaks='the lock is left held after an empty read',
  demo=d('''	r := GetReaderAt(&zsrc{data: []byte("abc")})
	r.ReadAt(nil, 0)
	c := make(chan bool)
	go func() {
		r.ReadAt(make([]byte, 1), 0)
		close(c)
	}()
	select {
	case <-c:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
''').replace('"bufio"', '"bufio"\n\t"time"')),
 dict(id='c13-skip', property='C13', pkg='.', edits=[('misc.go', '		sb.WriteString(d.Data)\n', '		if d.Size == 0 && d.Font == "" && sb.Len() > 0 {\n			sb.WriteString(strings.TrimLeft(d.Data, "\\x00"))\n		} else {\n			sb.WriteString(d.Data)\n		}\n')],
  needs='a piece after the first with neither font nor size whose text starts with a zero byte', breaks='the zero bytes are lost',
  demo=demo('''	if s := (TextData{{Data: "a"}, {Data: "\\x00b"}}).String(); s != "a\\x00b" {
		t.Fatalf("%q", s)
	}
''')),
 dict(id='c13-dup', property='C13', pkg='.', edits=[('misc.go', '	for _, d := range t {\n		sb.WriteString(d.Data)\n	}\n', '	for n, d := range t {\n		if n > 0 && n%64 == 0 {\n			sb.WriteByte(0)\n		}\n\n		sb.WriteString(d.Data)\n	}\n')],
  needs='a text of more than 64 pieces', breaks='an extra byte appears after every 64 pieces',
  demo=demo('''	if s := make(TextData, 65).String(); s != "" {
		t.Fatalf("%q", s)
	}
''')),
]
