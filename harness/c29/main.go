// C29: the documentation server gives every client the OpenAPI document of the model and the pages of the distribution.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"

	"verif/mon"
	"verif/src"
)

func main() {
	mon.Main(mon.Spec{Prop: "C29", Shards: 1,
		Rule:        "the compiled tool (race detector on) serves the documentation of random models on the loopback interface from a generated distribution archive; many clients at once request the document, the index page, other pages, parts of them, and pages that do not exist; every answer is compared with the OpenAPI export of the model or the archive; the race detector must stay silent; non-trivial = distinct model",
		Assumptions: []string{"the distribution archive is in the download directory (nothing is downloaded)", "port 8080 is free"},
		Quick:       1,
		MinEvents:   map[string]int{"document served": 500, "page served": 300, "not found": 50, "range": 50, "server": 3, "overlapping requests": 200}},
		func(r *mon.Run) {
			r.Cases("serve", r.Scale(10, 100), func(i int, g *mon.Rand) { one(r, g, i) })
		})
}

const site = "http://127.0.0.1:8080"

func free() bool {
	l, err := net.Listen("tcp", ":8080")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// pad gives compressible and incompressible text.
func pad(g *mon.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		if g.Bool() {
			b.WriteString(strings.Repeat(g.Pick("a", "<p>", "petstore "), g.Range(1, 40)))
		} else {
			fmt.Fprintf(&b, "%x", g.U64())
		}
	}
	return b.String()
}

func one(r *mon.Run, g *mon.Rand, i int) {
	dir := r.Scratch()
	home := filepath.Join(dir, "home")
	os.RemoveAll(home)
	if err := os.MkdirAll(filepath.Join(home, "dl"), 0755); err != nil {
		mon.Bug("%v", err)
	}
	var m *sadl.Model
	var doc string
	for { // a model that OpenAPI can hold
		_, s := src.Schema(g)
		text, _ := src.Write(g, s, true)
		var err error
		if m, err = sadl.ParseSadlString(text, sadl.NewData()); err != nil {
			mon.Bug("%v", err)
		}
		if m.Name == "" {
			continue
		}
		d, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
		if err != nil {
			continue
		}
		doc = sadl.Pretty(d)
		if err := os.WriteFile(filepath.Join(home, "m.sadl"), []byte(text), 0644); err != nil {
			mon.Bug("%v", err)
		}
		break
	}
	r.Observe(doc, true)
	// the distribution
	version := g.Pick("v3.43.0", "v9.9.9")
	root := g.Pick("swagger-ui-3.43.0", "swagger-ui-9.9.9")
	pages := map[string]string{
		"/index.html":        "<html>" + pad(g, 300) + "url: \"https://petstore.swagger.io/v2/swagger.json\"," + pad(g, 200),
		"/swagger-ui.css":    pad(g, g.Range(1, 90000)),
		"/swagger-ui.js":     pad(g, g.Range(1, 300000)),
		"/favicon-32x32.png": pad(g, 700),
		"/sub/x.html":        pad(g, 50),
		"/empty.txt":         "",
	}
	var zb bytes.Buffer
	zw := zip.NewWriter(&zb)
	put := func(name, text string) {
		f, err := zw.CreateHeader(&zip.FileHeader{Name: name, Method: zip.Deflate, Modified: time.Unix(1600000000, 0)})
		if err != nil {
			mon.Bug("%v", err)
		}
		f.Write([]byte(text))
	}
	put(root+"/README.md", "readme")
	put(root+"/src/hidden.js", "hidden")
	for _, p := range []string{"/index.html", "/swagger-ui.css", "/swagger-ui.js", "/favicon-32x32.png", "/sub/x.html", "/empty.txt"} {
		put(root+"/dist"+p, pages[p])
	}
	zw.Close()
	if err := os.WriteFile(filepath.Join(home, "dl", version+".zip"), zb.Bytes(), 0644); err != nil {
		mon.Bug("%v", err)
	}
	for k := 0; !free(); k++ {
		if k > 600 {
			mon.Bug("port 8080 is in use")
		}
		time.Sleep(100 * time.Millisecond)
	}
	cmd := exec.Command(os.Getenv("SADL_CLI"), "-g", "swagger-ui", "m.sadl")
	cmd.Dir = home
	cmd.Env = []string{"HOME=" + home, "PATH=" + home, "SWAGGER_RELEASE=" + version, "DOWNLOAD_DIRECTORY=" + filepath.Join(home, "dl"), "GORACE=halt_on_error=0", fmt.Sprintf("GOMAXPROCS=%d", g.Range(2, 8))}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var out lockedBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		mon.Bug("%v", err)
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	stop := func() {
		cmd.Process.Kill()
		<-done
	}
	tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: 2 * time.Minute}
	up := false
	for k := 0; k < 600 && !up; k++ {
		select {
		case <-done:
			r.Failf("ended", "the server ended\n%s", out.String())
			return
		default:
		}
		if resp, err := client.Get(site + "/empty.txt"); err == nil {
			resp.Body.Close()
			up = true
		} else {
			time.Sleep(100 * time.Millisecond)
		}
	}
	if !up {
		stop()
		mon.Bug("the server does not answer within a minute\n%s", out.String())
	}
	r.Event("server")
	apiName := m.Name + ".json"
	index := strings.Replace(pages["/index.html"], "https://petstore.swagger.io/v2/swagger.json", apiName, -1)
	var mu sync.Mutex
	active, overlaps := 0, 0
	fail := func(sig, format string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		r.Failf(sig, format, a...)
	}
	event := func(k string) { mu.Lock(); r.Event(k); mu.Unlock() }
	get := func(c *mon.Rand) {
		path, want, status := "", "", 200
		switch c.Intn(8) {
		case 0, 1, 2, 3:
			path, want = "/"+apiName, doc
		case 4:
			path, want = c.Pick("/", "/index.html"), index
		case 5, 6:
			path = c.Pick("/swagger-ui.css", "/swagger-ui.js", "/favicon-32x32.png", "/sub/x.html", "/empty.txt")
			want = pages[path]
		default:
			path, status = c.Pick("/nothing.html", "/README.md", "/hidden.js", "/src/hidden.js", "/dist/index.html", "/sub/nothing"), 404
		}
		req, _ := http.NewRequest("GET", site+path, nil)
		lo, hi := 0, len(want)
		if status == 200 && len(want) > 10 && c.P(15) {
			lo = c.Intn(len(want) - 1)
			hi = lo + 1 + c.Intn(len(want)-lo)
			if hi > len(want) {
				hi = len(want)
			}
			req.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", lo, hi-1))
			status = 206
			event("range")
		}
		mu.Lock()
		if active++; active > 1 {
			overlaps++
		}
		mu.Unlock()
		resp, err := client.Do(req)
		var body []byte
		if err == nil {
			body, err = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		mu.Lock()
		active--
		mu.Unlock()
		if err != nil {
			fail("request", "GET %s: %v\n%s", path, err, out.String())
			return
		}
		if resp.StatusCode != status {
			fail("status", "GET %s %s: status %d, not %d", path, req.Header.Get("Range"), resp.StatusCode, status)
			return
		}
		if status == 404 {
			event("not found")
			return
		}
		if string(body) != want[lo:hi] {
			fail("content", "GET %s %s: got %d bytes that are not the %d bytes of the content\n%s", path, req.Header.Get("Range"), len(body), hi-lo, src.Diff(want[lo:hi], string(body)))
		}
		if path == "/"+apiName {
			event("document served")
		} else {
			event("page served")
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		c := mon.NewRand(g.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < r.Scale(30, 100); n++ {
				get(c)
			}
		}()
	}
	wg.Wait()
	r.EventN("overlapping requests", overlaps)
	select {
	case <-done:
		r.Failf("ended", "the server ended\n%s", out.String())
	default:
		stop()
	}
	if t := out.String(); strings.Contains(t, "DATA RACE") {
		r.Failf("race", "data race in the server\n%s", t)
	} else if strings.Contains(t, "panic") {
		r.Failf("panic", "panic in the server\n%s", t)
	}
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
