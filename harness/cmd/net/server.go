package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	rhttp "github.com/go-ego/riot/net/http"
	"verif/harness/internal/vp"
)

// The front ends run in a process of their own, as the shipped server does: one
// life of the process is one life of its engine.

// ServerConf is given to the server process.
type ServerConf struct {
	Conf  Conf
	Dir   string
	Dict  string
	Nodes []string // HTTP nodes of a distributed search
	Dist  []string // gRPC nodes of a distributed search
}

// Addrs are the addresses of a running server.
type Addrs struct{ HTTP, GRPC, Dist string }

func freePort() int {
	// below the ports the system gives to outgoing connections
	for i := 0; i < 1000; i++ {
		p := 10000 + rand.Intn(22000)
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "resource temporarily unavailable: no free port")
	os.Exit(7)
	return 0
}

// serve is the server process. It answers one line per line of its input.
func serve(arg string) {
	var c ServerConf
	if err := json.Unmarshal([]byte(arg), &c); err != nil {
		panic(err)
	}
	os.Args = os.Args[:1]
	p1, p2 := freePort(), freePort()
	conf := c.Conf.com(c.Dir, c.Dict, c.Nodes, []string{fmt.Sprintf(":%d", p1)}, c.Dist, p2)
	rpc.InitEngine(conf)
	m := http.NewServeMux()
	m.HandleFunc("/search", rhttp.Search)
	m.HandleFunc("/add", rhttp.AddIndex)
	m.HandleFunc("/del", rhttp.DelIndex)
	m.HandleFunc("/dist", rhttp.WgDist)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, m)
	go rpc.InitGrpc(conf.Rpc.GrpcPort[0])
	if len(c.Dist) > 0 {
		go rpc.InitErpc(0)
	} else {
		p2 = p1
	}
	for _, p := range []int{p1, p2} {
		for i := 0; ; i++ {
			x, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err == nil {
				x.Close()
				break
			}
			if i > 2000 {
				fmt.Fprintln(os.Stderr, "resource temporarily unavailable: the server does not start")
				os.Exit(7)
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	b, _ := json.Marshal(Addrs{"http://" + l.Addr().String(), fmt.Sprintf("127.0.0.1:%d", p1), fmt.Sprintf("127.0.0.1:%d", p2)})
	fmt.Println(string(b))
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		switch in.Text() {
		case "flush":
			go func() {
				com.Flush()
				fmt.Println("ok")
			}()
		case "close":
			go func() {
				com.Searcher.Close()
				fmt.Println("ok")
			}()
		case "stuck":
			is, why := vp.Stuck(func(frames []string) bool {
				for _, f := range frames {
					if strings.Contains(f, "Listener).Accept") || f == "main.serve" || f == "main.main" {
						return true
					}
				}
				return false
			})
			b, _ := json.Marshal([]any{is, why})
			fmt.Println(string(b))
		}
	}
	os.Exit(0)
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if i := strings.Index(string(t.b), "\ngoroutine "); i > 0 && len(t.b) > 60000 {
		t.b = t.b[:60000]
	} else if len(t.b) > 60000 {
		t.b = t.b[len(t.b)-30000:]
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

type server struct {
	Addrs
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	outF *os.File
	err  *tail
	done chan struct{}
	mu   sync.Mutex
}

func startServer(c ServerConf) (*server, error) {
	for i := 0; ; i++ {
		s, err := startOnce(c)
		if err != nil && i < 5 && strings.Contains(s.err.String(), "address already in use") {
			continue
		}
		if err != nil {
			return nil, s.died()
		}
		return s, nil
	}
}

func startOnce(c ServerConf) (*server, error) {
	c.Dict = dict()
	exe, err := os.Executable()
	if err != nil {
		vp.Abort("%v", err)
	}
	b, _ := json.Marshal(c)
	r, w, err := os.Pipe()
	if err != nil {
		vp.Abort("%v", err)
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		vp.Abort("%v", err)
	}
	s := &server{cmd: exec.Command(exe, "serve", string(b)), in: w, out: bufio.NewReader(r2), outF: r2, err: &tail{}, done: make(chan struct{})}
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = r, w2, s.err
	s.cmd.Dir = c.Dir
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		vp.Abort("%v", err)
	}
	r.Close()
	w2.Close()
	go func() { s.cmd.Wait(); close(s.done) }()
	line, err := s.out.ReadString('\n')
	if err == nil {
		err = json.Unmarshal([]byte(line), &s.Addrs)
	}
	if err != nil {
		select {
		case <-s.done:
		case <-time.After(20 * time.Second):
		}
	}
	return s, err
}

// died explains the end of the server process.
func (s *server) died() error {
	select {
	case <-s.done:
	case <-time.After(20 * time.Second):
		vp.Abort("the server does not answer but has not ended")
	}
	t := s.err.String()
	for _, m := range []string{"address already in use", "cannot allocate memory", "out of memory", "no space left", "too many open files", "resource temporarily unavailable"} {
		if strings.Contains(t, m) {
			vp.Abort("server: %s", m)
		}
	}
	if i := strings.Index(t, "panic: "); i >= 0 {
		t = t[i:]
	} else if i := strings.Index(t, "fatal error: "); i >= 0 {
		t = t[i:]
	} else if len(t) > 1500 {
		t = t[len(t)-1500:]
	}
	if len(t) > 1500 {
		t = t[:1500]
	}
	return fmt.Errorf("the server process ended (%v): %s", s.cmd.ProcessState, t)
}

// gone reports whether the process has ended, giving it a moment.
func (s *server) gone() bool {
	select {
	case <-s.done:
		return true
	case <-time.After(300 * time.Millisecond):
		return false
	}
}

// late judges a request that was not answered in time.
func (s *server) late(what string) error {
	ans, err := s.ask("stuck")
	if err != nil {
		return err
	}
	var x []any
	if json.Unmarshal([]byte(ans), &x) == nil && len(x) == 2 && x[0] == true {
		return fmt.Errorf("%s is never answered; every goroutine involved is blocked:\n%v", what, x[1])
	}
	vp.Abort("%s took more than %v", what, patience)
	return nil
}

// ask sends a control command.
func (s *server) ask(cmd string) (string, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, err := s.in.WriteString(cmd + "\n"); err != nil {
		return "", s.died()
	}
	s.outF.SetReadDeadline(time.Now().Add(patience))
	line, err := s.out.ReadString('\n')
	s.outF.SetReadDeadline(time.Time{})
	if err != nil && errors.Is(err, os.ErrDeadlineExceeded) && cmd != "stuck" {
		s.in.WriteString("stuck\n")
		ans, err := s.out.ReadString('\n')
		var x []any
		if err == nil && json.Unmarshal([]byte(ans), &x) == nil && len(x) == 2 && x[0] == true {
			return "", fmt.Errorf("%s never returns; every goroutine involved is blocked:\n%v", cmd, x[1])
		}
		vp.Abort("%s took more than %v", cmd, patience)
	}
	if err != nil {
		return "", s.died()
	}
	return strings.TrimSpace(line), nil
}

// stop ends the process, after closing the engine if clean.
func (s *server) stop(clean bool) error {
	var err error
	if clean {
		_, err = s.ask("close")
	}
	s.in.Close()
	select {
	case <-s.done:
	case <-time.After(20 * time.Second):
		s.cmd.Process.Kill()
		<-s.done
	}
	if err == nil {
		if r := vp.RacesOf(s.cmd.Process.Pid); r != "" {
			err = fmt.Errorf("data race in the code under test:\n%s", r)
		}
	}
	return err
}
