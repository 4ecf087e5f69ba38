// Package jx compiles and runs Java code generated by the code under observation, against stand-ins for the
// libraries it uses (Jackson, JAX-RS, Bean Validation, Jersey, Jetty).
package jx

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"verif/mon"
)

//go:embed stubs.txt
var stubs string

//go:embed runner.txt
var runner string

// JVM is one Java process that compiles and runs jobs.
type JVM struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
	err *bytes.Buffer
}

func write(dir, all string) []string {
	var files []string
	for _, part := range strings.Split(all, "// FILE ")[1:] {
		name, text, _ := strings.Cut(part, "\n")
		p := filepath.Join(dir, strings.TrimSpace(name))
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			mon.Bug("%v", err)
		}
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			mon.Bug("%v", err)
		}
		files = append(files, p)
	}
	return files
}

// classes compiles the stand-ins and the runner, once for all workers of a run.
func classes() string {
	base := filepath.Join(filepath.Dir(os.Getenv("MON_SCRATCH")), "java")
	if err := os.MkdirAll(base, 0755); err != nil {
		mon.Bug("%v", err)
	}
	lock, err := os.OpenFile(filepath.Join(base, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		mon.Bug("%v", err)
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		mon.Bug("%v", err)
	}
	out := filepath.Join(base, "classes")
	done := filepath.Join(base, "done")
	if _, err := os.Stat(done); err == nil {
		return out
	}
	src := filepath.Join(base, "src")
	files := append(write(src, stubs), write(src, runner)...)
	os.MkdirAll(out, 0755)
	cmd := exec.Command("javac", append([]string{"-J-XX:TieredStopAtLevel=1", "-encoding", "UTF-8", "-proc:none", "-nowarn", "-parameters", "-d", out}, files...)...)
	if b, err := cmd.CombinedOutput(); err != nil {
		mon.Bug("javac: %v\n%s", err, b)
	}
	os.WriteFile(done, nil, 0644)
	return out
}

func Start() *JVM {
	j := &JVM{err: &bytes.Buffer{}}
	j.cmd = exec.Command("java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xshare:auto", "-Xmx700m", "-cp", classes(), "verif.Runner")
	j.cmd.Stderr = j.err
	j.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if j.in, err = j.cmd.StdinPipe(); err != nil {
		mon.Bug("%v", err)
	}
	o, err := j.cmd.StdoutPipe()
	if err != nil {
		mon.Bug("%v", err)
	}
	j.out = bufio.NewReaderSize(o, 1<<20)
	if err := j.cmd.Start(); err != nil {
		mon.Bug("java: %v", err)
	}
	return j
}

type Op map[string]interface{}

type Answer struct {
	Error   string
	Bug     string
	Classes map[string][]string
	Results []map[string]interface{}
}

// Job compiles the sources under dir and runs the operations.
func (j *JVM) Job(dir string, describe bool, ops []Op) *Answer {
	if ops == nil {
		ops = []Op{}
	}
	b, err := json.Marshal(map[string]interface{}{"dir": dir, "describe": describe, "ops": ops})
	if err != nil {
		mon.Bug("%v", err)
	}
	if _, err := j.in.Write(append(b, '\n')); err != nil {
		mon.Bug("java is gone: %v\n%s", err, j.err)
	}
	line, err := j.out.ReadBytes('\n')
	if err != nil {
		mon.Bug("java is gone: %v\n%s", err, j.err)
	}
	j.err.Reset()
	var a Answer
	d := json.NewDecoder(bytes.NewReader(line))
	d.UseNumber()
	if err := d.Decode(&a); err != nil {
		mon.Bug("java answers %q: %v", line, err)
	}
	if a.Bug != "" {
		mon.Bug("java runner: %s", a.Bug)
	}
	return &a
}

func (j *JVM) Stop() {
	j.in.Close()
	j.cmd.Wait()
}

func Str(x interface{}) string {
	if x == nil {
		return ""
	}
	if s, ok := x.(string); ok {
		return s
	}
	return fmt.Sprint(x)
}
