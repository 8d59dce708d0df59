// Drives the healthd daemon end to end: the real main() in a process of its
// own, real polling sinks as hosts, everything over the loopback network.
// Compiled into /repo/cmd/healthd through an overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gocraft/health"
	"verif/hx"
)

func TestDrive(t *testing.T) {
	if os.Getenv("DAEMON_CHILD") == "1" {
		main()
		return
	}
	hx.Main(t, map[string]hx.Driver{"daemon": driveDaemon})
}

// port finds a free port of the loopback network.
func port() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var startLine = regexp.MustCompile(`(?m)^\[.*\]: job:\S+ event:starting kvs:\[health_host_port:(\S*) monitored_host_ports:(\S*) server_host_port:(\S*)\]$`)

var client = &http.Client{Timeout: 5 * time.Second}

func get(addr, path string, v interface{}) bool {
	resp, err := client.Get("http://" + addr + path)
	if err != nil {
		return false
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return err == nil && resp.StatusCode == 200 && json.Unmarshal(b, v) == nil
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(100 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

type hostsAnswer struct {
	Instance string `json:"instance_id"`
	Hosts    []struct {
		HostPort string `json:"host_port"`
		Code     int    `json:"last_code"`
		Err      string `json:"last_err"`
	} `json:"hosts"`
}
type jobsAnswer struct {
	Jobs []struct {
		Name  string `json:"name"`
		Count int64  `json:"count"`
	} `json:"jobs"`
}

func driveDaemon(sc *hx.Scenario, rng *rand.Rand, r *hx.Rec) {
	cfg := sc.Ops[0]
	env := []string{"DAEMON_CHILD=1", "TZ=UTC", "HOME=" + os.Getenv("HOME"), "PATH=" + os.Getenv("PATH")}
	var hosts, up, all []string
	counts := map[string]int64{}
	for i := 0; i < cfg.I("up"); i++ {
		hp := "127.0.0.1:" + port()
		hosts, up = append(hosts, hp), append(up, hp)
		s := health.NewStream()
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*5)
		s.AddSink(sink)
		sink.StartServer(hp)
		defer sink.ShutdownServer()
		for k, n := 0, 1+rng.Intn(4); k < n; k++ {
			job := fmt.Sprintf("job%d", rng.Intn(4))
			s.NewJob(job).Complete(health.Success)
			counts[job]++
		}
	}
	for i := 0; i < cfg.I("down"); i++ {
		hosts = append(hosts, "127.0.0.1:"+port())
	}
	if cfg.I("down") > 0 {
		hosts = append(hosts, "127.0.0.9") // without a port
	}
	myPort := port()
	if cfg.B("same") { // another name of its own sink is a host like any other
		hp := "127.0.0.9:" + myPort
		hosts, up = append(hosts, hp), append(up, hp)
	}
	rng.Shuffle(len(hosts), func(i, j int) { hosts[i], hosts[j] = hosts[j], hosts[i] })
	server, self := ":5031", ":5030"
	if cfg.B("defaults") {
		for _, a := range []string{server, self} {
			var l net.Listener
			var err error
			eventually(60*time.Second, func() bool { l, err = net.Listen("tcp", a); return err == nil })
			if err != nil { // taken by something else here
				r.SetCfg(hx.Ev{"none": true})
				r.Log(hx.Ev{"op": "skip"})
				return
			}
			l.Close()
		}
	} else if cfg.B("same") {
		server, self = "127.0.0.1:"+port(), ":"+myPort
		env = append(env, "HEALTHD_SERVER_HOSTPORT="+server, "HEALTH_HOSTPORT="+self)
	} else {
		server, self = "127.0.0.1:"+port(), "127.0.0.1:"+port()
		env = append(env, "HEALTHD_SERVER_HOSTPORT="+server, "HEALTH_HOSTPORT="+self)
	}
	if len(hosts) > 0 {
		env = append(env, "HEALTHD_MONITORED_HOSTPORTS="+strings.Join(hosts, ","))
	}
	all = append(append([]string{}, hosts...), self)
	sort.Strings(all)
	well := append(append([]string{}, up...), self)
	sort.Strings(well)
	if counts == nil {
		counts = map[string]int64{}
	}
	r.SetCfg(hx.Ev{"none": len(hosts) == 0, "all": all, "well": well, "given": strings.Join(append(append([]string{}, hosts...), self), ","), "server": server, "self": self, "counts": counts})

	out, errs := &lockedBuf{}, &lockedBuf{}
	cmd := exec.Command(os.Args[0], "-test.run", "TestDrive", "-test.timeout", "0")
	cmd.Env = env
	cmd.Stdout, cmd.Stderr = out, errs
	runtime.LockOSThread() // the child ends with this process
	defer runtime.UnlockOSThread()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	ended := make(chan int, 1)
	go func() { cmd.Wait(); ended <- cmd.ProcessState.ExitCode() }()
	defer func() { cmd.Process.Kill() }()

	if len(hosts) == 0 {
		code := -1
		select {
		case code = <-ended:
		case <-time.After(20 * time.Second):
		}
		r.Log(hx.Ev{"op": "exit", "code": code, "said": strings.Contains(out.String()+errs.String(), "HEALTHD_MONITORED_HOSTPORTS"), "started": strings.Contains(out.String(), "event:starting")})
		return
	}
	addr := server
	if strings.HasPrefix(addr, ":") {
		addr = "127.0.0.2" + addr // every interface
	}
	hn, _ := os.Hostname()
	ident := fmt.Sprintf("%s.%d", hn, cmd.Process.Pid)
	var ha hostsAnswer
	answers := eventually(30*time.Second, func() bool { return get(addr, "/healthd/hosts", &ha) })
	names := []string{}
	for _, h := range ha.Hosts {
		names = append(names, h.HostPort)
	}
	r.Log(hx.Ev{"op": "hosts", "answers": answers, "rows": names, "inst": ha.Instance == ident})
	st := startLine.FindStringSubmatch(out.String())
	if st == nil {
		st = []string{"", "?", "?", "?"}
	}
	r.Log(hx.Ev{"op": "start", "self": st[1], "given": st[2], "server": st[3]})

	ok, got, own := []string{}, map[string]int64{}, map[string]bool{}
	look := func() bool {
		var h hostsAnswer
		var j jobsAnswer
		if !get(addr, "/healthd/hosts", &h) || !get(addr, "/healthd/jobs?sort=name", &j) {
			return false
		}
		ok, got, own = []string{}, map[string]int64{}, map[string]bool{"poll": false, "recalculate": false}
		for _, x := range h.Hosts {
			if x.Code == 200 && x.Err == "" {
				ok = append(ok, x.HostPort)
			}
		}
		for _, x := range j.Jobs {
			if strings.HasPrefix(x.Name, "job") {
				got[x.Name] = x.Count
			} else if _, is := own[x.Name]; is && x.Count > 0 {
				own[x.Name] = true
			}
		}
		return strings.Join(ok, ",") == strings.Join(well, ",") && fmt.Sprint(got) == fmt.Sprint(counts) && own["poll"] && own["recalculate"]
	}
	eventually(60*time.Second, look)
	alive := true
	select {
	case <-ended:
		alive = false
	default:
	}
	log := out.String()
	r.Log(hx.Ev{"op": "settled", "alive": alive, "ok": ok, "counts": got, "own": own["poll"] && own["recalculate"],
		"logged": strings.Contains(log, "job:poll status:success") && strings.Contains(log, "job:recalculate status:success") && strings.Contains(log, "job:/healthd/hosts event:starting_request")})
	// healthd's own sink answers too
	var any map[string]interface{}
	sa := self
	if strings.HasPrefix(sa, ":") {
		sa = "127.0.0.2" + sa
	}
	heard := false
	eventually(5*time.Second, func() bool {
		var own struct {
			Aggregations []struct {
				Events map[string]int `json:"events"`
			} `json:"aggregations"`
		}
		get(sa, "/health", &own)
		n := 0
		for _, a := range own.Aggregations {
			n += a.Events["starting"]
		}
		heard = n == 1
		return heard
	})
	r.Log(hx.Ev{"op": "self", "starting": heard, "answers": get(sa, "/health", &any) && any["aggregations"] != nil && any["instance_id"] == ident && fmt.Sprint(any["interval_duration"]) == fmt.Sprint(float64(time.Minute))})
}
