package hx

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
)

// UDP is the StatsD server side: a loopback socket read without blocking.
type UDP struct {
	mu   sync.Mutex
	c    *net.UDPConn
	rc   syscall.RawConn
	port int
	buf  []byte
}

func NewUDP() *UDP {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic("harness: " + err.Error())
	}
	c.SetReadBuffer(8 << 20)
	rc, err := c.SyscallConn()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &UDP{c: c, rc: rc, port: c.LocalAddr().(*net.UDPAddr).Port, buf: make([]byte, 70000)}
}

func (u *UDP) Addr() string { return fmt.Sprintf("127.0.0.1:%d", u.port) }

// Recv returns all datagrams that have arrived.
func (u *UDP) Recv() []string {
	u.mu.Lock()
	defer u.mu.Unlock()
	var out []string
	u.rc.Read(func(fd uintptr) bool {
		for {
			n, _, err := syscall.Recvfrom(int(fd), u.buf, syscall.MSG_DONTWAIT)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				return true
			}
			out = append(out, string(u.buf[:n]))
		}
	})
	return out
}

// Dropped reports whether the kernel had to drop datagrams (socket buffer
// full): then nothing can be said about the run.
func (u *UDP) Dropped() bool {
	b, err := os.ReadFile("/proc/self/net/udp")
	if err != nil {
		return false
	}
	want := fmt.Sprintf(":%04X", u.port)
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) >= 13 && strings.HasSuffix(f[1], want) {
			return f[len(f)-1] != "0"
		}
	}
	return false
}

func (u *UDP) Close() { u.c.Close() }
