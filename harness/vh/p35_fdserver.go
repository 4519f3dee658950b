package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"golang.org/x/sys/unix"
)

// P35: sockets handed out by, and obtained from, an fd-server.

func p35Req(sig uint32, domain, typ, proto int) []byte {
	b := make([]byte, 16)
	for i, v := range []uint32{sig, uint32(domain), uint32(typ), uint32(proto)} {
		binary.BigEndian.PutUint32(b[4*i:], v)
	}
	return b
}

const (
	p35ReqSig  = 0x58533031
	p35RespSig = 0x58533032
)

// p35Dial connects to a server, waiting for it to appear.
func p35Dial(path string) (int, error) {
	var last error
	for i := 0; i < 2000; i++ {
		fd, err := unix.Socket(unix.AF_UNIX, unix.SOCK_SEQPACKET|unix.SOCK_CLOEXEC, 0)
		if err != nil {
			return -1, err
		}
		if last = unix.Connect(fd, &unix.SockaddrUnix{Name: path}); last == nil {
			tv := unix.NsecToTimeval(int64(20 * time.Second))
			unix.SetsockoptTimeval(fd, unix.SOL_SOCKET, unix.SO_RCVTIMEO, &tv)
			return fd, nil
		}
		unix.Close(fd)
		time.Sleep(5 * time.Millisecond)
	}
	return -1, last
}

// p35Ask sends a request. closed is set if the server closed the connection.
func p35Ask(fd int, req []byte) (fds []int, errno unix.Errno, closed bool, err error) {
	if err = unix.Send(fd, req, unix.MSG_NOSIGNAL); err != nil {
		if err == unix.EPIPE || err == unix.ECONNRESET {
			return nil, 0, true, nil
		}
		return nil, 0, false, err
	}
	buf, oob := make([]byte, 64), make([]byte, unix.CmsgSpace(4*8))
	var n, oobn int
	for {
		n, oobn, _, _, err = unix.Recvmsg(fd, buf, oob, unix.MSG_CMSG_CLOEXEC)
		if err != unix.EINTR {
			break
		}
	}
	if err == unix.ECONNRESET || err == nil && n == 0 {
		return nil, 0, true, nil
	}
	if err != nil {
		return nil, 0, false, err
	}
	msgs, _ := unix.ParseSocketControlMessage(oob[:oobn])
	for i := range msgs {
		r, _ := unix.ParseUnixRights(&msgs[i])
		fds = append(fds, r...)
	}
	if n != 8 || binary.BigEndian.Uint32(buf) != p35RespSig {
		return fds, 0, false, fmt.Errorf("malformed response % x", buf[:n])
	}
	return fds, unix.Errno(binary.BigEndian.Uint32(buf[4:])), false, nil
}

func p35CloseAll(fds []int) {
	for _, fd := range fds {
		unix.Close(fd)
	}
}

// p35Sockets counts the open sockets of the process.
func p35Sockets() int {
	n := 0
	entries, _ := os.ReadDir("/proc/self/fd")
	for _, e := range entries {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// p35Settle waits for the number of sockets to come down to n.
func p35Settle(n int) int {
	got := 0
	for i := 0; i < 1000; i++ {
		if got = p35Sockets(); got <= n {
			return got
		}
		time.Sleep(5 * time.Millisecond)
	}
	return got
}

type p35Kind struct{ domain, typ, proto int }

func (k p35Kind) allowed() bool {
	switch k.typ &^ (unix.SOCK_CLOEXEC | unix.SOCK_NONBLOCK) {
	case unix.SOCK_STREAM:
		return (k.domain == unix.AF_INET || k.domain == unix.AF_INET6) && (k.proto == 0 || k.proto == unix.IPPROTO_TCP)
	case unix.SOCK_DGRAM:
		return (k.domain == unix.AF_INET || k.domain == unix.AF_INET6) && (k.proto == 0 || k.proto == unix.IPPROTO_UDP)
	}
	return false
}

// p35Judge says what is wrong with the answer to a request.
func p35Judge(k p35Kind, unrestricted bool, fds []int, errno unix.Errno, closed bool, err error) string {
	if err != nil || closed {
		return fmt.Sprintf("no answer (closed %v, %v)", closed, err)
	}
	if !unrestricted && !k.allowed() {
		if len(fds) != 0 || errno != unix.EPERM {
			return fmt.Sprintf("not to be handed out, got %d descriptors and error %v", len(fds), errno)
		}
		return ""
	}
	ref, refErr := unix.Socket(k.domain, k.typ|unix.SOCK_CLOEXEC, k.proto)
	if refErr != nil {
		if len(fds) != 0 || errno != refErr.(unix.Errno) {
			return fmt.Sprintf("got %d descriptors and error %v, the system says %v", len(fds), errno, refErr)
		}
		return ""
	}
	defer unix.Close(ref)
	if len(fds) != 1 || errno != 0 {
		return fmt.Sprintf("got %d descriptors and error %v, want one", len(fds), errno)
	}
	for _, o := range []int{unix.SO_DOMAIN, unix.SO_TYPE, unix.SO_PROTOCOL} {
		g, err1 := unix.GetsockoptInt(fds[0], unix.SOL_SOCKET, o)
		w, err2 := unix.GetsockoptInt(ref, unix.SOL_SOCKET, o)
		if err1 != nil || err2 != nil || g != w {
			return fmt.Sprintf("socket property %d is %d (%v), want %d (%v)", o, g, err1, w, err2)
		}
	}
	return ""
}

// p35Start runs a server. stop ends it and reports what Start returned.
func p35Start(path string, opt rdns.XSocketServerOptions) (srv *rdns.XSocketServer, done chan error) {
	srv = rdns.NewXSocketServer(path, opt)
	done = make(chan error, 1)
	go func() { done <- srv.Start() }()
	return srv, done
}

func p35Wait(done chan error) (err error, ended bool) {
	select {
	case err = <-done:
		return err, true
	case <-time.After(20 * time.Second):
		return nil, false
	}
}

func p35Server(unrestricted bool) func(*C) {
	return func(c *C) {
		path := filepath.Join(scratchDir(), "s")
		base := p35Sockets()
		srv, done := p35Start(path, rdns.XSocketServerOptions{Unrestricted: unrestricted})
		fd, err := p35Dial(path)
		if err != nil {
			c.Violation("server does not accept connections: %v", err)
			return
		}
		// All requests over one connection.
		var kinds []p35Kind
		for _, domain := range []int{unix.AF_INET, unix.AF_INET6, unix.AF_UNIX, unix.AF_NETLINK, 0, 9999, -1} {
			for _, typ := range []int{unix.SOCK_STREAM, unix.SOCK_DGRAM, unix.SOCK_RAW, unix.SOCK_SEQPACKET, 0} {
				for _, flag := range []int{0, unix.SOCK_CLOEXEC, unix.SOCK_NONBLOCK, 0x100} {
					for _, proto := range []int{0, unix.IPPROTO_TCP, unix.IPPROTO_UDP, unix.IPPROTO_ICMP, 253, 262, -1} {
						// The protocol carries 32 bits without a sign.
						d, p := domain, proto
						if d < 0 {
							d = 1<<32 - 1
						}
						if p < 0 {
							p = 1<<32 - 1
						}
						kinds = append(kinds, p35Kind{d, typ | flag, p})
					}
				}
			}
		}
		try := func(fd int, desc string, k p35Kind) bool {
			c.Step()
			fds, errno, closed, err := p35Ask(fd, p35Req(p35ReqSig, k.domain, k.typ, k.proto))
			bad := p35Judge(k, unrestricted, fds, errno, closed, err)
			p35CloseAll(fds)
			if bad != "" {
				c.Violation("%s: %s", desc, bad)
				return false
			}
			c.State("%v %v %d", k, errno, len(fds))
			return true
		}
		for _, k := range kinds {
			desc := fmt.Sprintf("unrestricted=%v request %+v", unrestricted, k)
			c.Case(desc)
			if !try(fd, desc, k) {
				return
			}
		}
		unix.Close(fd)
		// Sequences: good, refused and malformed requests on a connection,
		// with a second connection open.
		keep, err := p35Dial(path)
		if err != nil {
			c.Violation("no second connection: %v", err)
			return
		}
		good := p35Kind{unix.AF_INET, unix.SOCK_STREAM, 0}
		reqs := []struct {
			name string
			k    p35Kind
			raw  []byte
		}{
			{"stream", good, nil},
			{"datagram", p35Kind{unix.AF_INET6, unix.SOCK_DGRAM, unix.IPPROTO_UDP}, nil},
			{"unix", p35Kind{unix.AF_UNIX, unix.SOCK_STREAM, 0}, nil},
			{"short", good, p35Req(p35ReqSig, unix.AF_INET, unix.SOCK_STREAM, 0)[:15]},
			{"one byte", good, []byte{0x58}},
			{"wrong signature", good, p35Req(p35RespSig, unix.AF_INET, unix.SOCK_STREAM, 0)},
			{"no signature", good, p35Req(0, unix.AF_INET, unix.SOCK_STREAM, 0)},
		}
		ok := true
		for n := 1; n <= 3; n++ {
			tuples(len(reqs), n, func(t []int) {
				if !ok {
					return
				}
				desc := fmt.Sprintf("unrestricted=%v sequence", unrestricted)
				for _, i := range t {
					desc += " " + reqs[i].name
				}
				c.Case(desc)
				fd, err := p35Dial(path)
				if err != nil {
					c.Violation("%s: no connection: %v", desc, err)
					ok = false
					return
				}
				defer unix.Close(fd)
				for _, i := range t {
					if reqs[i].raw == nil {
						if ok = try(fd, desc, reqs[i].k); !ok {
							return
						}
						continue
					}
					c.Step()
					fds, errno, closed, err := p35Ask(fd, reqs[i].raw)
					p35CloseAll(fds)
					if len(fds) > 0 || !closed && errno == 0 {
						c.Violation("%s: malformed request answered with %d descriptors, error %v %v", desc, len(fds), errno, err)
						ok = false
					}
					break
				}
				ok = ok && try(keep, desc+", other connection", good)
			})
		}
		unix.Close(keep)
		if err := srv.Stop(); err != nil {
			c.Violation("Stop: %v", err)
		}
		if err, ended := p35Wait(done); err != nil || !ended {
			c.Violation("Start returned %v (ended %v) after Stop", err, ended)
		}
		if n := p35Settle(base); n > base {
			c.Violation("%d sockets are left open by the server", n-base)
		}
	}
}

// p35Files starts servers with all kinds of files in their way.
func p35Files() func(*C) {
	return func(c *C) {
		dir := scratchDir()
		stale := func(path string, typ int) {
			fd, err := unix.Socket(unix.AF_UNIX, typ, 0)
			if err == nil {
				err = unix.Bind(fd, &unix.SockaddrUnix{Name: path})
				unix.Close(fd)
			}
			if err != nil {
				panic(err)
			}
		}
		n := 0
		for _, mode := range []fs.FileMode{0, 0600, 0660, 0666} {
			for _, state := range []string{"nothing", "stale", "live", "file", "empty file", "directory", "link to file", "no directory"} {
				n++
				sub := filepath.Join(dir, fmt.Sprint(n))
				os.Mkdir(sub, 0700)
				path, other := filepath.Join(sub, "s"), filepath.Join(sub, "other")
				desc := fmt.Sprintf("%s at the path, mode %o", state, mode)
				c.Case(desc)
				c.Step()
				var live *rdns.XSocketServer
				switch state {
				case "stale":
					stale(path, unix.SOCK_SEQPACKET)
				case "live":
					live, _ = p35Start(path, rdns.XSocketServerOptions{})
					if fd, err := p35Dial(path); err == nil {
						unix.Close(fd)
					}
				case "file":
					os.WriteFile(path, []byte("precious"), 0600)
				case "empty file":
					os.WriteFile(path, nil, 0600)
				case "directory":
					os.Mkdir(path, 0700)
				case "link to file":
					os.WriteFile(other, []byte("precious"), 0600)
					os.Symlink(other, path)
				case "no directory":
					path = filepath.Join(sub, "none", "s")
				}
				before := p35List(sub)
				srv, done := p35Start(path, rdns.XSocketServerOptions{SocketMode: mode})
				want := state == "nothing" || state == "stale"
				if want {
					fd, err := p35Dial(path)
					if err != nil {
						c.Violation("%s: the server is not reachable: %v", desc, err)
						return
					}
					// The mode is set right after the socket appears.
					k := p35Kind{unix.AF_INET, unix.SOCK_DGRAM, 0}
					fds, errno, closed, err := p35Ask(fd, p35Req(p35ReqSig, k.domain, k.typ, k.proto))
					if bad := p35Judge(k, false, fds, errno, closed, err); bad != "" {
						c.Violation("%s: %s", desc, bad)
					}
					p35CloseAll(fds)
					unix.Close(fd)
					fi, err := os.Lstat(path)
					if err != nil || fi.Mode()&fs.ModeSocket == 0 || mode != 0 && fi.Mode().Perm() != mode {
						c.Violation("%s: socket is %v (%v)", desc, fi, err)
					}
					srv.Stop()
					if err, ended := p35Wait(done); err != nil || !ended {
						c.Violation("%s: Start returned %v (ended %v) after Stop", desc, err, ended)
					}
					if _, err := os.Lstat(path); err == nil {
						c.Violation("%s: the socket is left behind by Stop", desc)
					}
				} else {
					err, ended := p35Wait(done)
					if !ended || err == nil {
						c.Violation("%s: the server starts", desc)
						return
					}
					srv.Stop()
					if after := p35List(sub); after != before {
						c.Violation("%s: files are now %s, were %s", desc, after, before)
					}
				}
				if live != nil {
					if fd, err := p35Dial(path); err != nil {
						c.Violation("%s: the first server is no longer reachable: %v", desc, err)
					} else {
						unix.Close(fd)
					}
					live.Stop()
				}
				c.State("%s %o", state, mode)
			}
		}
		// A server stopped before it starts leaves nothing.
		path := filepath.Join(dir, "early")
		c.Case("stopped before the start")
		srv := rdns.NewXSocketServer(path, rdns.XSocketServerOptions{})
		srv.Stop()
		done := make(chan error, 1)
		go func() { done <- srv.Start() }()
		if _, ended := p35Wait(done); !ended {
			c.Violation("a server that was stopped serves")
		}
		if _, err := os.Lstat(path); err == nil {
			c.Violation("a server that was stopped leaves its socket behind")
		}
	}
}

// p35List describes a directory and the content of its files.
func p35List(dir string) (out string) {
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		fi, err := e.Info()
		if err != nil {
			continue
		}
		b := []byte{}
		if fi.Mode().IsRegular() {
			b, _ = os.ReadFile(filepath.Join(dir, e.Name()))
		}
		out += fmt.Sprintf("%s %v %q; ", e.Name(), fi.Mode(), b)
	}
	return out
}

// p35Answers are what a server says to the program. The request's socket
// arguments are given.
var p35Answers = []string{"good", "two", "error", "error with descriptor", "none", "short", "short with descriptor", "signature", "signature with descriptor", "close"}

// p35Fake serves one connection for each answer and records the requests.
func p35Fake(ln *net.UnixListener, answers []string, reqs chan p35Kind, done chan bool) {
	defer close(done)
	for _, how := range answers {
		conn, err := ln.AcceptUnix()
		if err != nil {
			return
		}
		b := make([]byte, 64)
		n, _ := conn.Read(b)
		if n == 16 && binary.BigEndian.Uint32(b) == p35ReqSig {
			k := p35Kind{int(binary.BigEndian.Uint32(b[4:])), int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))}
			reqs <- k
			resp := make([]byte, 8)
			binary.BigEndian.PutUint32(resp, p35RespSig)
			var fds []int
			sock := func() {
				fd, err := unix.Socket(k.domain, k.typ|unix.SOCK_CLOEXEC, k.proto)
				if err == nil {
					fds = append(fds, fd)
				}
			}
			if how == "good" || how == "two" || strings.HasSuffix(how, "with descriptor") {
				sock()
			}
			if how == "two" {
				sock()
			}
			if strings.HasPrefix(how, "error") {
				binary.BigEndian.PutUint32(resp[4:], uint32(unix.EMFILE))
			}
			if strings.HasPrefix(how, "signature") {
				binary.BigEndian.PutUint32(resp, p35ReqSig)
			}
			if strings.HasPrefix(how, "short") {
				resp = resp[:7]
			}
			if how != "close" {
				var oob []byte
				if fds != nil {
					oob = unix.UnixRights(fds...)
				}
				conn.WriteMsgUnix(resp, oob, nil)
			}
			p35CloseAll(fds)
		} else {
			reqs <- p35Kind{-1, -1, -1}
		}
		conn.Close()
	}
}

// p35Client sends queries through sockets from a server with all answers.
func p35Client(network string) func(*C) {
	return func(c *C) {
		dir := scratchDir()
		ln, err := net.ListenUnix("unixpacket", &net.UnixAddr{Name: filepath.Join(dir, "s"), Net: "unixpacket"})
		if err != nil {
			c.ToolError("%v", err)
			return
		}
		defer ln.Close()
		ns := &rdns.NetNS{XSocket: filepath.Join(dir, "s")}
		typ := unix.SOCK_DGRAM
		if network == "tcp" {
			typ = unix.SOCK_STREAM
		}
		up := &dns.Server{Net: network, Addr: "127.0.0.1:0", Handler: dns.HandlerFunc(func(w dns.ResponseWriter, q *dns.Msg) {
			w.WriteMsg(reply(q, 0, rr(q.Question[0].Name+" 5 IN A 1.1.1.1")))
		})}
		started := make(chan bool)
		up.NotifyStartedFunc = func() { close(started) }
		go up.ListenAndServe()
		<-started
		defer up.Shutdown()
		addr := ""
		if network == "udp" {
			addr = up.PacketConn.LocalAddr().String()
		} else {
			addr = up.Listener.Addr().String()
		}
		for _, how := range p35Answers {
			// A client after a failed attempt, and one that starts well.
			for _, second := range []string{"good", "error"} {
				desc := fmt.Sprintf("%s client, server answers %s, then %s", network, how, second)
				c.Case(desc)
				base := p35Sockets()
				reqs, done := make(chan p35Kind, 4), make(chan bool)
				go p35Fake(ln, []string{how, second}, reqs, done)
				cl, err := rdns.NewDNSClient("c", addr, network, rdns.DNSClientOptions{NetNS: ns, QueryTimeout: 20 * time.Second})
				if err != nil {
					c.Violation("%s: %v", desc, err)
					return
				}
				works := func(s string) bool { return s == "good" || s == "two" }
				c.Step()
				a, err := cl.Resolve(query("a.test.", dns.TypeA), rdns.ClientInfo{})
				if got := err == nil && a != nil && len(a.Answer) == 1; got != works(how) {
					c.Violation("%s: first query: %s (%v)", desc, shortMsg(a, err), err)
					return
				}
				if k := <-reqs; k.domain != unix.AF_INET || k.typ&^(unix.SOCK_CLOEXEC|unix.SOCK_NONBLOCK) != typ {
					c.Violation("%s: asked for a socket %+v", desc, k)
					return
				}
				if works(how) {
					// The connection may be used again; end the server.
					if fd, err := p35Dial(ns.XSocket); err == nil {
						unix.Close(fd)
					}
				} else {
					// Until the server has closed its side.
					c.Step()
					a, err = cl.Resolve(query("b.test.", dns.TypeA), rdns.ClientInfo{})
					if got := err == nil && a != nil && len(a.Answer) == 1; got != works(second) {
						c.Violation("%s: second query: %s (%v)", desc, shortMsg(a, err), err)
						return
					}
				}
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					c.Violation("%s: the server was not asked", desc)
					return
				}
				want := base
				if works(how) || works(second) {
					want++ // the connection of the client
					if network == "tcp" {
						want++ // and its other side
					}
				}
				if n := p35Settle(want); n > want {
					c.Violation("%s: %d sockets too many are open", desc, n-want)
					return
				}
				c.State("%s", desc)
			}
		}
	}
}

// p35Listen obtains listening sockets for all forms of addresses.
func p35Listen() func(*C) {
	return func(c *C) {
		path := filepath.Join(scratchDir(), "s")
		srv, _ := p35Start(path, rdns.XSocketServerOptions{})
		defer srv.Stop()
		if fd, err := p35Dial(path); err == nil {
			unix.Close(fd)
		}
		ns := &rdns.NetNS{XSocket: path}
		v6 := true
		if l, err := net.Listen("tcp6", "[::1]:0"); err == nil {
			l.Close()
		} else {
			v6 = false
		}
		reach := func(network, host string, port int) bool {
			if strings.HasPrefix(network, "tcp") {
				conn, err := net.DialTimeout("tcp", net.JoinHostPort(host, fmt.Sprint(port)), 10*time.Second)
				if err == nil {
					conn.Close()
				}
				return err == nil
			}
			conn, err := net.Dial("udp", net.JoinHostPort(host, fmt.Sprint(port)))
			if err != nil {
				return false
			}
			defer conn.Close()
			conn.Write([]byte("x"))
			// A port that is not open is reported to the sender.
			conn.SetReadDeadline(time.Now().Add(10 * time.Second))
			b := make([]byte, 1)
			_, err = conn.Read(b)
			return err == nil
		}
		for _, network := range []string{"tcp", "tcp4", "tcp6", "udp", "udp4", "udp6"} {
			hosts := []string{"127.0.0.1", "127.0.0.2", "::1", "", "0.0.0.0", "::"}
			one := func(host string) string {
				fam := network[3:]
				is6 := strings.Contains(host, ":")
				desc := fmt.Sprintf("%s listener at %q", network, host)
				if !v6 && (is6 || host == "" && fam != "4") {
					return ""
				}
				c.Case(desc)
				c.Step()
				refuse := fam == "4" && is6 || fam == "6" && host != "" && !is6
				var port int
				var err error
				var end func() error
				if strings.HasPrefix(network, "tcp") {
					var l net.Listener
					if l, err = rdns.ListenInNetNS(context.Background(), ns, network, net.JoinHostPort(host, "0"), rdns.SocketOptions{}); err == nil {
						port, end = l.Addr().(*net.TCPAddr).Port, l.Close
					}
				} else {
					var p net.PacketConn
					if p, err = rdns.ListenPacketInNetNS(context.Background(), ns, network, net.JoinHostPort(host, "0"), rdns.SocketOptions{}); err == nil {
						port, end = p.LocalAddr().(*net.UDPAddr).Port, p.Close
						go func() {
							b := make([]byte, 10)
							for {
								n, from, err := p.ReadFrom(b)
								if err != nil {
									return
								}
								p.WriteTo(b[:n], from)
							}
						}()
					}
				}
				if (err != nil) != refuse {
					return fmt.Sprintf("%v, refusal is to be %v", err, refuse)
				}
				if err != nil {
					c.State("%s refused", desc)
					return ""
				}
				want := map[string]bool{}
				switch host {
				case "", "::":
					// "::" without family takes both, like the standard library
					// does; that is judged for the empty address only.
					want["127.0.0.1"], want["::1"] = fam != "6", fam != "4"
					if host == "::" && fam == "" {
						delete(want, "127.0.0.1")
					}
				case "0.0.0.0":
					want["127.0.0.1"] = true
					if fam == "4" {
						want["::1"] = false
					}
				default:
					want["127.0.0.1"], want["127.0.0.2"], want["::1"] = false, false, false
					want[host] = true
				}
				c.State("%s %v", desc, want)
				bad := ""
				for h, w := range want {
					if h == "::1" && !v6 {
						continue
					}
					c.Step()
					if got := reach(network, h, port); got != w {
						bad = fmt.Sprintf("reachable at %s is %v, want %v", h, got, w)
					}
				}
				end()
				return bad
			}
			for _, host := range hosts {
				// Others may use the port at another address, what is wrong
				// counts if it is wrong with three ports.
				bad := ""
				for try := 0; try < 3; try++ {
					if bad = one(host); bad == "" {
						break
					}
				}
				if bad != "" {
					c.Violation("%s listener at %q: %s", network, host, bad)
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:          "P35",
		Level:       "fault_enumeration",
		Rule:        "all kinds of sockets of the alphabet requested from the real server in both modes, all sequences of up to three good, refused and malformed requests, all kinds of files at the path of the server, all answers of a server to the real client, all forms of listening addresses; a state is a distinct outcome",
		Assumptions: []string{"requests longer than the protocol allows are not judged", "the server runs in the namespace of the check"},
		Scenarios: func(tier string) []Scenario {
			return []Scenario{
				{Name: "restricted", Run: p35Server(false), CrashIsViolation: true},
				{Name: "unrestricted", Run: p35Server(true), CrashIsViolation: true},
				{Name: "files", Run: p35Files(), CrashIsViolation: true},
				{Name: "client-udp", Run: p35Client("udp"), CrashIsViolation: true},
				{Name: "client-tcp", Run: p35Client("tcp"), CrashIsViolation: true},
				{Name: "listen", Run: p35Listen(), CrashIsViolation: true},
			}
		},
	})
}
