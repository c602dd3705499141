// Package model holds Go models of the parts of the standard library that touch the outside
// world or reflection. The symbolic machine executes them instead of the real functions; a
// function named pkg__Name stands for pkg.Name, pkg__P_T__M for (*pkg.T).M.
package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/sym"
)

// RuntimeError is the value of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// Machine primitives.
func Call(f func(), limit int) (kind int, msg string, code int)
func Exit(code int)
func Unsupported(what string)
func ResetGlobals()
func MainInit()
func MainMain()
func IsSym(x any) bool
func Kind(x any) int
func TypeName(x any) string
func AsInt(x any) int64
func AsBool(x any) bool
func AsFloat(x any) float64
func AsString(x any) string
func AsBytes(x any) []byte
func SliceLen(x any) int
func SliceElem(x any, i int) any
func IsNilPtr(x any) bool
func AssignAs(err error, target any) bool
func Parts(x any) []any
func PartName(x any, i int) string
func Shape(x any) int
func CentsOf(f float64) (int64, bool)
func IntOfFloat(f float64) (int64, bool)
func ConcFloat(f float64) float64
func FormatFloat(f float64, fmt byte, prec int) string
func FormatInt(i int64) string

// ---- one execution of the program ----

var (
	files  map[string]string
	env    []sym.File
	stdout []byte
	stderr []byte
	now    int64
	opened map[*os.File]*handle
)

type handle struct {
	data string
	pos  int
	name string
	// when opened for writing
	write, end bool
}

// dirs are the directories made during a run.
var dirs map[string]bool

// changed describes what a run did to the files.
func changed(before []sym.File) (l []string) {
	old := map[string]string{}
	for _, f := range before {
		old[clean(f.Name)] = f.Data
	}
	for n, d := range files {
		o, ok := old[n]
		if !ok {
			l = append(l, "created "+n)
		} else if o != d {
			l = append(l, "changed "+n)
		}
	}
	for n := range old {
		if _, ok := files[n]; !ok {
			l = append(l, "removed "+n)
		}
	}
	for n := range dirs {
		l = append(l, "created "+n)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

const stepLimit = 3000000

// limit is the number of steps after which a run counts as endless.
func limit() int {
	return stepLimit * sym.Param("steps", 1)
}

func start() {
	MainInit()
	MainMain()
}

func verif_harness_sym__Run(c sym.Cmd) sym.Result {
	files = map[string]string{}
	for _, f := range c.Files {
		files[clean(f.Name)] = f.Data
	}
	env = c.Env
	stdout, stderr = nil, nil
	now = c.Now
	opened = map[*os.File]*handle{}
	dirs, made = nil, false
	os.Args = append([]string{"gledger"}, c.Args...)
	os.Stdout, os.Stderr, os.Stdin = new(os.File), new(os.File), new(os.File)
	setZone(c.Zone)
	ResetGlobals()
	kind, msg, code := Call(start, limit())
	r := sym.Result{Out: string(stdout), Err: string(stderr)}
	if made {
		r.Changed = changed(c.Files)
	}
	switch kind {
	case 1:
		r.Crash, r.Code = msg, 2
	case 2:
		r.Code = code
	case 3:
		r.Hang = true
	}
	return r
}

func verif_harness_sym__Differs(r *sym.Result) {}

func verif_harness_sym__Catch(f func()) string {
	kind, msg, code := Call(f, limit())
	switch kind {
	case 1:
		return "panic: " + msg
	case 2:
		return "exit " + FormatInt(int64(code))
	case 3:
		return "hang"
	}
	return ""
}

func setZone(z sym.Zone) {
	if z.Trans == 0 {
		if z.Offset == 0 {
			*time.Local = *time.UTC
			return
		}
		*time.Local = *time.FixedZone("ZZZ", z.Offset)
		return
	}
	var b []byte
	be := func(v int) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	b = append(b, "TZif"...)
	b = append(b, make([]byte, 16)...)
	be(0)
	be(0)
	be(0)
	be(1)
	be(2)
	be(4)
	be(int(z.Trans))
	b = append(b, 1)
	be(z.Before)
	b = append(b, 0, 0)
	be(z.Offset)
	b = append(b, 0, 0)
	b = append(b, "ZZZ\x00"...)
	l, err := time.LoadLocationFromTZData("Local", b)
	if err != nil {
		Unsupported("zone data")
	}
	*time.Local = *l
}

func clean(p string) string {
	p = strings.TrimPrefix(p, "/work/")
	for strings.HasPrefix(p, "./") {
		p = p[2:]
	}
	// dir/../x
	parts := strings.Split(p, "/")
	var out []string
	for _, s := range parts {
		switch {
		case s == "." || s == "" && len(out) > 0:
		case s == ".." && len(out) > 0 && out[len(out)-1] != "..":
			out = out[:len(out)-1]
		default:
			out = append(out, s)
		}
	}
	return strings.Join(out, "/")
}

func isDir(p string) bool {
	for n := range files {
		if strings.HasPrefix(n, p+"/") {
			return true
		}
	}
	return p == "" || p == "." || p == "/tmp" || dirs[p]
}

// ---- os ----

func os__Exit(code int) { Exit(code) }

func os__Open(name string) (*os.File, error) {
	d, ok := files[clean(name)]
	if !ok || name == "" {
		if isDir(clean(name)) && name != "" {
			f := new(os.File)
			opened[f] = &handle{name: name, pos: -1}
			return f, nil
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: errNoEnt}
	}
	f := new(os.File)
	opened[f] = &handle{data: d, name: name}
	return f, nil
}

type errnoT string

func (e errnoT) Error() string { return string(e) }
func (e errnoT) Is(target error) bool {
	return target == fs.ErrNotExist && e == "no such file or directory" || target == fs.ErrExist && e == "file exists"
}

func os__IsNotExist(err error) bool {
	if pe, ok := err.(*fs.PathError); ok {
		err = pe.Err
	}
	return err == errNoEnt || err == fs.ErrNotExist
}
func os__IsExist(err error) bool {
	if pe, ok := err.(*fs.PathError); ok {
		err = pe.Err
	}
	return err == errExists || err == fs.ErrExist
}
func os__IsPermission(err error) bool { return false }

// info describes a file.
type info struct {
	name string
	size int
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(i.size) }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time__Now() }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func stat(op, name string) (os.FileInfo, error) {
	c := clean(name)
	base := c
	if i := strings.LastIndexByte(c, '/'); i >= 0 {
		base = c[i+1:]
	}
	if d, ok := files[c]; ok && name != "" {
		return info{name: base, size: len(d)}, nil
	}
	if name != "" && isDir(c) {
		return info{name: base, dir: true}, nil
	}
	return nil, &fs.PathError{Op: op, Path: name, Err: errNoEnt}
}

func os__Stat(name string) (os.FileInfo, error)  { return stat("stat", name) }
func os__Lstat(name string) (os.FileInfo, error) { return stat("lstat", name) }
func os__P_File__Stat(f *os.File) (os.FileInfo, error) {
	if h := opened[f]; h != nil {
		return stat("stat", h.name)
	}
	return nil, os.ErrInvalid
}
func path_filepath__EvalSymlinks(p string) (string, error) {
	if _, err := stat("lstat", p); err != nil {
		return "", err
	}
	return p, nil
}
func path_filepath__Rel(base, target string) (string, error) {
	if len(base) > 0 && base[0] == '/' != (len(target) > 0 && target[0] == '/') {
		return "", errnoT("Rel: can't make " + target + " relative to " + base)
	}
	split := func(p string) (l []string) {
		for _, s := range strings.Split(p, "/") {
			switch {
			case s == "" || s == ".":
			case s == ".." && len(l) > 0 && l[len(l)-1] != "..":
				l = l[:len(l)-1]
			default:
				l = append(l, s)
			}
		}
		return
	}
	b, t := split(base), split(target)
	n := 0
	for n < len(b) && n < len(t) && b[n] == t[n] {
		n++
	}
	var out []string
	for range b[n:] {
		out = append(out, "..")
	}
	out = append(out, t[n:]...)
	if len(out) == 0 {
		return ".", nil
	}
	return strings.Join(out, "/"), nil
}

var errNoEnt error = errnoT("no such file or directory")
var errIsDir error = errnoT("is a directory")

// made says that something wrote to the files.
var made bool

func parent(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[:i]
	}
	return ""
}

func os__OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) == 0 {
		return os__Open(name)
	}
	made = true
	c := clean(name)
	d, ok := files[c]
	switch {
	case name == "" || !ok && flag&os.O_CREATE == 0 || !isDir(parent(c)):
		return nil, &fs.PathError{Op: "open", Path: name, Err: errNoEnt}
	case isDir(c):
		return nil, &fs.PathError{Op: "open", Path: name, Err: errIsDir}
	case ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, &fs.PathError{Op: "open", Path: name, Err: errExists}
	case !ok || flag&os.O_TRUNC != 0:
		d = ""
		files[c] = ""
	}
	f := new(os.File)
	opened[f] = &handle{data: d, name: name, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, end: flag&os.O_APPEND != 0}
	return f, nil
}

func os__Create(name string) (*os.File, error) {
	return os__OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func os__WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := os__OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	os__P_File__Write(f, data)
	return os__P_File__Close(f)
}

// store writes b to a file.
func store(h *handle, b []byte) (int, error) {
	if !h.write {
		return 0, &fs.PathError{Op: "write", Path: h.name, Err: errnoT("bad file descriptor")}
	}
	c := clean(h.name)
	d := []byte(files[c])
	if h.end {
		h.pos = len(d)
	}
	for len(d) < h.pos {
		d = append(d, 0)
	}
	n := copy(d[h.pos:], b)
	d = append(d, b[n:]...)
	h.pos += len(b)
	files[c] = string(d)
	h.data = files[c]
	return len(b), nil
}

func os__Remove(name string) error {
	made = true
	c := clean(name)
	if _, ok := files[c]; ok {
		delete(files, c)
		return nil
	}
	if dirs[c] {
		delete(dirs, c)
		return nil
	}
	return &fs.PathError{Op: "remove", Path: name, Err: errNoEnt}
}

func os__RemoveAll(name string) error {
	made = true
	c := clean(name)
	delete(files, c)
	for n := range files {
		if strings.HasPrefix(n, c+"/") {
			delete(files, n)
		}
	}
	for n := range dirs {
		if n == c || strings.HasPrefix(n, c+"/") {
			delete(dirs, n)
		}
	}
	return nil
}

func os__Rename(from, to string) error {
	made = true
	a, b := clean(from), clean(to)
	d, ok := files[a]
	if !ok || !isDir(parent(b)) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errNoEnt}
	}
	delete(files, a)
	files[b] = d
	return nil
}

func os__Link(from, to string) error {
	made = true
	d, ok := files[clean(from)]
	if !ok {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: errNoEnt}
	}
	files[clean(to)] = d
	return nil
}

func os__Symlink(from, to string) error {
	made = true
	files[clean(to)] = files[clean(from)]
	return nil
}

func os__Truncate(name string, size int64) error {
	made = true
	c := clean(name)
	d, ok := files[c]
	if !ok {
		return &fs.PathError{Op: "truncate", Path: name, Err: errNoEnt}
	}
	if int(size) <= len(d) {
		files[c] = d[:size]
	} else {
		files[c] = d + string(make([]byte, int(size)-len(d)))
	}
	return nil
}

func os__P_File__Truncate(f *os.File, size int64) error {
	if h := opened[f]; h != nil && h.write {
		return os__Truncate(h.name, size)
	}
	return os.ErrInvalid
}

func os__Mkdir(name string, perm os.FileMode) error {
	made = true
	c := clean(name)
	if _, ok := files[c]; ok || isDir(c) {
		return &fs.PathError{Op: "mkdir", Path: name, Err: errExists}
	}
	if !isDir(parent(c)) {
		return &fs.PathError{Op: "mkdir", Path: name, Err: errNoEnt}
	}
	if dirs == nil {
		dirs = map[string]bool{}
	}
	dirs[c] = true
	return nil
}

func os__MkdirAll(name string, perm os.FileMode) error {
	c := clean(name)
	if isDir(c) {
		return nil
	}
	if p := parent(c); p != c && !isDir(p) {
		if err := os__MkdirAll(p, perm); err != nil {
			return err
		}
	}
	return os__Mkdir(name, perm)
}

func os__TempDir() string { return "/tmp" }
func os__CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return os__OpenFile(dir+"/"+strings.Replace(pattern, "*", "", 1)+"1234", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}
func os__MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	n := dir + "/" + strings.Replace(pattern, "*", "", 1) + "1234"
	return n, os__Mkdir(n, 0o700)
}
func os__UserCacheDir() (string, error)  { return "/work/.cache", nil }
func os__UserConfigDir() (string, error) { return "/work/.config", nil }

func attributes(op, name string) error {
	made = true
	c := clean(name)
	if d, ok := files[c]; ok {
		// seen as a change of the contents
		files[c] = d + "\x00" + op
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: errNoEnt}
}
func os__Chmod(name string, mode os.FileMode) error { return attributes("chmod", name) }
func os__P_File__Chmod(f *os.File, mode os.FileMode) error {
	if h := opened[f]; h != nil {
		return attributes("chmod", h.name)
	}
	return os.ErrInvalid
}
func os__Chtimes(name string, atime, mtime time.Time) error { return attributes("chtimes", name) }
func os__P_File__Sync(f *os.File) error                     { return nil }
func os__P_File__Seek(f *os.File, offset int64, whence int) (int64, error) {
	h := opened[f]
	if h == nil {
		return 0, os.ErrInvalid
	}
	switch whence {
	case 1:
		offset += int64(h.pos)
	case 2:
		offset += int64(len(h.data))
	}
	if offset < 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.name, Err: os.ErrInvalid}
	}
	h.pos = int(offset)
	return offset, nil
}
func os__P_File__WriteAt(f *os.File, b []byte, off int64) (int, error) {
	h := opened[f]
	if h == nil || h.end {
		return 0, os.ErrInvalid
	}
	at := h.pos
	h.pos = int(off)
	n, err := store(h, b)
	h.pos = at
	return n, err
}

var errExists error = errnoT("file exists")

func os__ReadFile(name string) ([]byte, error) {
	d, ok := files[clean(name)]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errNoEnt}
	}
	return []byte(d), nil
}

func os__P_File__Read(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := opened[f]
	if h == nil {
		if f == os.Stdin {
			return 0, io.EOF
		}
		return 0, os.ErrClosed
	}
	if h.pos < 0 {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: errIsDir}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.data) {
		return 0, io.EOF
	}
	n := copy(b, h.data[h.pos:])
	h.pos += n
	return n, nil
}

func os__P_File__Close(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	if opened[f] == nil {
		return os.ErrClosed
	}
	delete(opened, f)
	return nil
}

func os__P_File__Name(f *os.File) string {
	if h := opened[f]; h != nil {
		return h.name
	}
	return ""
}

func os__P_File__Write(f *os.File, b []byte) (int, error) {
	switch f {
	case os.Stdout:
		stdout = append(stdout, b...)
	case os.Stderr:
		stderr = append(stderr, b...)
	default:
		if h := opened[f]; h != nil {
			return store(h, b)
		}
		return 0, os.ErrInvalid
	}
	return len(b), nil
}

func os__P_File__WriteString(f *os.File, s string) (int, error) {
	return os__P_File__Write(f, []byte(s))
}

func os__LookupEnv(name string) (string, bool) {
	for _, e := range env {
		if e.Name == name {
			return e.Data, true
		}
	}
	switch name {
	case "HOME":
		return "/work", true
	case "PATH":
		return "/usr/bin:/bin", true
	}
	return "", false
}

func os__Setenv(name, v string) error {
	for i := range env {
		if env[i].Name == name {
			env = append([]sym.File{}, env...)
			env[i].Data = v
			return nil
		}
	}
	env = append(env[:len(env):len(env)], sym.File{Name: name, Data: v})
	return nil
}
func os__Unsetenv(name string) error {
	var l []sym.File
	for _, e := range env {
		if e.Name != name {
			l = append(l, e)
		}
	}
	env = l
	return nil
}
func os__Environ() (l []string) {
	for _, e := range env {
		l = append(l, e.Name+"="+e.Data)
	}
	return append(l, "HOME=/work", "PATH=/usr/bin:/bin")
}
func os__UserHomeDir() (string, error) { return "/work", nil }
func os__Hostname() (string, error)    { return "host", nil }
func os__Getpid() int                  { return 4711 }
func os__Getenv(name string) string    { s, _ := os__LookupEnv(name); return s }
func os__Getwd() (string, error)       { return "/work", nil }
func path_filepath__Abs(p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return p, nil
	}
	return "/work/" + clean(p), nil
}
func path_filepath__unixAbs(p string) (string, error) { return path_filepath__Abs(p) }

// ---- time ----

func time__Now() time.Time {
	if now == 0 {
		return time.Unix(1790000000, 0)
	}
	return time.Unix(now, 0)
}
func time__initLocal()         {}
func time__runtimeNano() int64 { return 1 }

// ---- sync ----

func sync__P_Once__Do(o *sync.Once, f func()) {
	if onces == nil {
		onces = map[*sync.Once]bool{}
	}
	if !onces[o] {
		onces[o] = true
		f()
	}
}

var onces map[*sync.Once]bool

func sync__P_Pool__Get(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func sync__P_Map__Load(m *sync.Map, k any) (any, bool) {
	v, ok := syncMaps[m][k]
	return v, ok
}
func sync__P_Map__Store(m *sync.Map, k, v any) { syncMap(m)[k] = v }
func sync__P_Map__LoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := syncMap(m)[k]; ok {
		return x, true
	}
	syncMap(m)[k] = v
	return v, false
}

var syncMaps map[*sync.Map]map[any]any

func sync__P_Map__Range(m *sync.Map, f func(k, v any) bool) {
	for k, v := range syncMaps[m] {
		if !f(k, v) {
			break
		}
	}
}
func sync__P_Map__Delete(m *sync.Map, k any)      { delete(syncMap(m), k) }
func sync__P_WaitGroup__Add(*sync.WaitGroup, int) {}
func sync__P_WaitGroup__Done(*sync.WaitGroup)     {}
func sync__P_WaitGroup__Wait(*sync.WaitGroup)     {}

func syncMap(m *sync.Map) map[any]any {
	if syncMaps == nil {
		syncMaps = map[*sync.Map]map[any]any{}
	}
	if syncMaps[m] == nil {
		syncMaps[m] = map[any]any{}
	}
	return syncMaps[m]
}

// ---- errors ----

func errors__Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if errors__Is(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return target == nil
		}
		err = u.Unwrap()
	}
	return target == nil
}

func errors__As(err error, target any) bool {
	for err != nil {
		if AssignAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if errors__As(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

var _ = errors.New

// ---- log ----

func log__Fatal(a ...any) {
	s := Sprint(a...)
	logLine(s)
	Exit(1)
}
func log__Fatalln(a ...any)          { logLine(Sprintln(a...)); Exit(1) }
func log__Fatalf(f string, a ...any) { logLine(Sprintf(f, a...)); Exit(1) }
func log__Println(a ...any)          { logLine(Sprintln(a...)) }
func log__Print(a ...any)            { logLine(Sprint(a...)) }
func log__Printf(f string, a ...any) { logLine(Sprintf(f, a...)) }
func log__Panic(a ...any)            { s := Sprint(a...); logLine(s); panic(s) }
func log__Panicf(f string, a ...any) { s := Sprintf(f, a...); logLine(s); panic(s) }
func log__Panicln(a ...any)          { s := Sprintln(a...); logLine(s); panic(s) }
func log__SetFlags(int)              {}
func log__SetOutput(io.Writer)       {}
func log__SetPrefix(string)          {}
func logLine(s string) {
	stderr = append(stderr, "2026/01/01 00:00:00 "...)
	stderr = append(stderr, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		stderr = append(stderr, '\n')
	}
}

// ---- cobra's templates (usage and help texts) ----

func cobra__tmpl(w io.Writer, text string, data any) error {
	io.WriteString(w, "<help>\n")
	return nil
}

func cobra__stringContains() {}
