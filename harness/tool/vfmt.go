package main

import (
	"io"
	"os"
)

// Running the tool as a process: vTool gives what it printed and whether it
// failed.  limit: no file may grow beyond that many bytes (-1: any size).
var vNativeTool func(args []string, limit int) ([]byte, bool)

func vTool(args []string, capture bool, limit int) ([]byte, bool) {
	if vNative() {
		return vNativeTool(args, limit)
	}
	vCapture(capture)
	vLimitFiles(limit)
	vSetArgs(args)
	failed := vEnds(main)
	vLimitFiles(-1)
	if !capture {
		return nil, failed
	}
	return vFileBytes("<stdout>"), failed
}

func vCapture(on bool)    {}
func vLimitFiles(n int)   {}
func vEnds(f func()) bool { return false }
func vPutDir(name string) {
	if err := os.Mkdir(name, 0o755); err != nil && !os.IsExist(err) {
		panic(err)
	}
}

// What the engine puts in the place of the fmt functions while output is
// captured: the verbs and operands the tool uses.

func vfUint(v uint64) []byte {
	var b []byte
	for {
		b = append([]byte{byte('0' + v%10)}, b...)
		v /= 10
		if v == 0 {
			return b
		}
	}
}

func vfInt(v int64) []byte {
	if v < 0 {
		return append([]byte{'-'}, vfUint(uint64(-v))...)
	}
	return vfUint(uint64(v))
}

// vfArg formats one operand; the second result tells whether it is text.
func vfArg(verb byte, a any) ([]byte, bool) {
	switch t := a.(type) {
	case string:
		return []byte(t), true
	case []byte:
		if verb == 's' {
			return []byte(t), true
		}
	case error:
		return []byte(t.Error()), true
	case bool:
		if t {
			return []byte("true"), false
		}
		return []byte("false"), false
	case int:
		return vfInt(int64(t)), false
	case int64:
		return vfInt(t), false
	case int32:
		if verb == 'c' {
			return []byte(string(rune(t))), false
		}
		return vfInt(int64(t)), false
	case int16:
		return vfInt(int64(t)), false
	case int8:
		return vfInt(int64(t)), false
	case uint:
		return vfUint(uint64(t)), false
	case uint64:
		return vfUint(t), false
	case uint32:
		return vfUint(uint64(t)), false
	case uint16:
		return vfUint(uint64(t)), false
	case uint8:
		return vfUint(uint64(t)), false
	}
	return []byte("?"), false
}

func vfSprintf(format string, a ...any) string {
	var b []byte
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 == len(format) {
			b = append(b, format[i])
			continue
		}
		i++
		for i+1 < len(format) && (format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if format[i] == '%' {
			b = append(b, '%')
			continue
		}
		if n < len(a) {
			t, _ := vfArg(format[i], a[n])
			b = append(b, t...)
		}
		n++
	}
	return string(b)
}

func vfSprint(a ...any) string {
	var b []byte
	text := true
	for i, x := range a {
		t, s := vfArg('v', x)
		if i > 0 && !s && !text {
			b = append(b, ' ')
		}
		b = append(b, t...)
		text = s
	}
	return string(b)
}

func vfSprintln(a ...any) string {
	var b []byte
	for i, x := range a {
		if i > 0 {
			b = append(b, ' ')
		}
		t, _ := vfArg('v', x)
		b = append(b, t...)
	}
	return string(append(b, '\n'))
}

func vfPrintf(format string, a ...any) (int, error) {
	return os.Stdout.Write([]byte(vfSprintf(format, a...)))
}
func vfPrint(a ...any) (int, error)   { return os.Stdout.Write([]byte(vfSprint(a...))) }
func vfPrintln(a ...any) (int, error) { return os.Stdout.Write([]byte(vfSprintln(a...))) }
func vfFprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(vfSprintf(format, a...)))
}
func vfFprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(vfSprint(a...))) }
func vfFprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(vfSprintln(a...))) }
func vfAppendf(b []byte, format string, a ...any) []byte {
	return append(b, vfSprintf(format, a...)...)
}
func vfAppend(b []byte, a ...any) []byte   { return append(b, vfSprint(a...)...) }
func vfAppendln(b []byte, a ...any) []byte { return append(b, vfSprintln(a...)...) }
