package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtmp"

	"joyverif/mc"
)

var tlsConfig = func() *tls.Config {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"h.test"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}()

// serverRun covers the addresses that reach the loopback interface.
func serverRun(c *mc.Ctx) {
	switch c.Choose(2) {
	case 0: // "@": wait for a publisher
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		host := l.Addr().String()
		l.Close()
		var pkts []av.Packet
		for i := 0; i < 2; i++ {
			if k := c.Choose(len(kinds) + 1); k < len(kinds) {
				pkts = append(pkts, packet(k, i))
			}
		}
		c.Logf("@rtmp://, packets %v", pkts)
		start, second, over := make(chan bool), make(chan bool), make(chan bool)
		sent := make(chan error, 1)
		go func() {
			<-start
			u, _ := url.Parse("rtmp://" + host + "/app/key")
			var nc net.Conn
			var err error
			for i := 0; i < 400; i++ {
				if nc, err = net.Dial("tcp", host); err == nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			if err != nil {
				sent <- err
				return
			}
			p, err := rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareWriting)
			if err != nil {
				sent <- err
				return
			}
			for _, x := range pkts {
				if err := p.WritePacket(x); err != nil {
					sent <- err
					return
				}
			}
			err = p.Flush()
			<-second
			nc.Close()
			sent <- err
		}()
		conns := 0
		o := format.URLOpener{OnNewRtmpConn: func(*rtmp.Conn) { conns++ }}
		before, again := c.Choose(3), c.Bool()
		if before > 0 { // somebody else comes first and does not get through
			go func() {
				for i := 0; i < 400; i++ {
					if nc, err := net.Dial("tcp", host); err == nil {
						if before == 2 {
							nc.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
							nc.Close()
						}
						defer nc.Close()
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				close(start)
				<-over
			}()
		} else {
			close(start)
		}
		began := time.Now()
		r, err := o.Open("@rtmp://" + host)
		if err != nil {
			c.FailK("server", "open: %v", err)
		}
		if d := time.Since(began); d > 6*time.Second {
			c.FailK("server", "the publisher had to wait for %v behind one that says nothing", d)
		}
		// the second publisher is not left in doubt
		late := make(chan error, 1)
		go func() {
			nc, err := net.Dial("tcp", host)
			if err != nil {
				late <- nil
				return
			}
			defer nc.Close()
			end := time.Now().Add(3 * time.Second)
			u, _ := url.Parse("rtmp://" + host + "/app/key")
			p, err := rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareWriting)
			nc.SetDeadline(end)
			for err == nil && time.Now().Before(end) {
				if err = p.WritePacket(packet(0, 0)); err == nil {
					if err = p.Flush(); err == nil {
						time.Sleep(5 * time.Millisecond)
					}
				}
			}
			if ne, ok := err.(net.Error); err == nil || ok && ne.Timeout() {
				late <- errors.New("nothing comes for 3 seconds and it is not closed")
			} else {
				late <- nil
			}
		}()
		if err := <-late; err != nil {
			c.FailK("server", "a second publisher is accepted and never served: %v", err)
		}
		close(second)
		readBack(c, "server", r, pkts)
		r.Close()
		if err := <-sent; err != nil {
			c.FailK("server", "the publisher failed: %v", err)
		}
		if conns != 1 || r.Rtmp == nil || !r.Rtmp.Publishing {
			c.FailK("server", "hook called %d times, reader %+v", conns, r)
		}
		close(over)
		if again {
			var l net.Listener
			for i := 0; i < 100; i++ {
				if l, err = net.Listen("tcp", host); err == nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			if err != nil {
				c.FailK("server", "the address is still in use: %v", err)
			}
			l.Close()
		}
		c.Outcome("server", len(pkts))
	case 1:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		defer l.Close()
		addr := "rtsp://" + []string{"", "u:p@"}[c.Choose(2)] + l.Addr().String() + "/s"
		seen := make(chan string, 1)
		go func() {
			nc, err := l.Accept()
			if err != nil {
				seen <- err.Error()
				return
			}
			line, _ := bufio.NewReader(nc).ReadString('\n')
			nc.Close()
			seen <- line
		}()
		var o format.URLOpener
		r, err := o.Open(addr)
		if err != nil {
			c.FailK("rtsp", "open: %v", err)
		}
		if _, err := r.ReadPacket(); err == nil {
			c.FailK("rtsp", "no error although the server hung up")
		}
		if err := r.Close(); err != nil {
			c.FailK("rtsp", "close: %v", err)
		}
		want := fmt.Sprintf("rtsp://%s/s RTSP/1.0", l.Addr())
		if line := strings.TrimSpace(<-seen); !strings.HasSuffix(line, " "+want) {
			c.FailK("rtsp", "the server got %q, want %q", line, want)
		}
		c.Outcome("rtsp")
	}
}
