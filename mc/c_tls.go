package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
)

// ---- certificates (C22) ----
//
// The unmodified binary talks real TLS, through a proxy on the loopback network
// or directly, to servers whose certificates are good or bad in every way listed
// here; which requests get as far as the server is what counts.

// certClasses are the servers, <class>.example each.
var certClasses = []string{"good", "self", "unknown", "other", "old", "future", "purpose"}

type tlsLab struct {
	once   sync.Once
	caPEM  []byte
	certs  map[string]*tls.Certificate
	err    error
	mu     sync.Mutex
	direct map[*proxy]map[string]string
}

var lab tlsLab

func (l *tlsLab) init() error {
	l.once.Do(func() {
		l.certs, l.direct = map[string]*tls.Certificate{}, map[*proxy]map[string]string{}
		now := time.Now()
		n := int64(1)
		mk := func(cn string, f func(c *x509.Certificate), parent *x509.Certificate, pk *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
			key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				l.err = err
				return nil, nil, nil
			}
			n++
			c := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, NotBefore: now.Add(-48 * time.Hour), NotAfter: now.Add(48 * time.Hour),
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: []string{cn}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, BasicConstraintsValid: true}
			f(c)
			if parent == nil {
				parent, pk = c, key
			}
			der, err := x509.CreateCertificate(rand.Reader, c, parent, &key.PublicKey, pk)
			if err != nil {
				l.err = err
				return nil, nil, nil
			}
			return c, key, der
		}
		asCA := func(c *x509.Certificate) {
			c.IsCA, c.KeyUsage, c.ExtKeyUsage, c.DNSNames, c.IPAddresses = true, x509.KeyUsageCertSign, nil, nil, nil
		}
		ca, cak, cad := mk("Test CA", asCA, nil, nil)
		un, unk, _ := mk("Unknown CA", asCA, nil, nil)
		if l.err != nil {
			return
		}
		l.caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cad})
		for _, cl := range certClasses {
			p, pk := ca, cak
			f := func(c *x509.Certificate) {}
			switch cl {
			case "self":
				p, pk = nil, nil
			case "unknown":
				p, pk = un, unk
			case "other":
				f = func(c *x509.Certificate) { c.DNSNames, c.IPAddresses = []string{"else.example"}, nil }
			case "old":
				f = func(c *x509.Certificate) { c.NotBefore, c.NotAfter = now.Add(-72*time.Hour), now.Add(-time.Hour) }
			case "future":
				f = func(c *x509.Certificate) { c.NotBefore, c.NotAfter = now.Add(24*time.Hour), now.Add(72*time.Hour) }
			case "purpose":
				f = func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }
			}
			_, k, der := mk(cl+".example", f, p, pk)
			l.certs[cl] = &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
		}
	})
	return l.err
}

// connect answers a CONNECT request: TLS with the certificate of the host.
func (p *proxy) connect(rw http.ResponseWriter, r *http.Request) {
	host, _, _ := strings.Cut(r.Host, ":")
	cl, _, _ := strings.Cut(host, ".")
	cert := lab.certs[cl]
	h, ok := rw.(http.Hijacker)
	if !ok || cert == nil {
		http.Error(rw, "no such host", 502)
		return
	}
	c, _, err := h.Hijack()
	if err != nil {
		return
	}
	io.WriteString(c, "HTTP/1.1 200 Connection established\r\n\r\n")
	go p.serveTLS(c, cl)
}

// serveTLS serves requests of one connection as https://<class>.example.
func (p *proxy) serveTLS(c net.Conn, cl string) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*lab.certs[cl]}})
	if t.Handshake() != nil {
		return
	}
	br := bufio.NewReader(t)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		u := "https://" + cl + ".example" + r.URL.RequestURI()
		p.mu.Lock()
		sc := p.sc
		p.log = append(p.log, u)
		p.mu.Unlock()
		for a, b := range sc.Redirect {
			if strings.HasPrefix(u, a) {
				fmt.Fprintf(t, "HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n", b+u[len(a):])
				u = ""
				break
			}
		}
		if u == "" {
			continue
		}
		st, b, _, err := HTTPGet(sc, u, "")
		if err != nil {
			return
		}
		var o bytes.Buffer
		fmt.Fprintf(&o, "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n\r\n", st, http.StatusText(st), len(b))
		o.Write(b)
		if _, err := t.Write(o.Bytes()); err != nil {
			return
		}
	}
}

// listenTLS starts direct servers and returns their addresses by class.
func (p *proxy) listenTLS() (map[string]string, error) {
	lab.mu.Lock()
	defer lab.mu.Unlock()
	if m := lab.direct[p]; m != nil {
		return m, nil
	}
	m := map[string]string{}
	for _, cl := range certClasses {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		m[cl] = l.Addr().String()
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go p.serveTLS(c, cl)
			}
		}()
	}
	lab.direct[p] = m
	return m, nil
}

func runC22(c *Ctx) {
	if err := lab.init(); err != nil {
		c.Broken("certificates: %v", err)
		return
	}
	conf, cli := []string{"", "true", "false"}, []string{"", "=true", "=false", "bare"}
	// where the server in question stands
	places := []string{"only", "second", "binary", "lists-redirect", "archives-redirect", "customized", "direct"}
	cmds := [][]string{{"install"}, {"plan"}, {"inspect", "--deps"}, {"add", "B", "--install"}, {"plan-insecurely", "install"}, {"clean", "pkgdbs"}}
	if c.quick() {
		cmds = cmds[:5]
	}
	others := []string{"", "NoUpdate: true\nNoRollback: true\nStrict: false"}
	n, dg := product(len(conf), len(cli), len(certClasses), len(places), len(cmds), pick(c, 1, len(others)))
	c.Bound("NoSecure unset / true / false in the configuration x --no-secure not given / true / false / bare x %d kinds of certificate %v x %d places of the server %v x commands %v: %d executions of the unmodified binary over real TLS", len(certClasses), certClasses, len(places), places, cmds, n)
	done := make([]bool, n)
	c.Par(n, func(w *Worker, i int) {
		done[i] = true
		g := dg(i)
		cl, place, cmd := certClasses[g[2]], places[g[3]], cmds[g[4]]
		on := conf[g[0]] == "true"
		switch cli[g[1]] {
		case "=true", "bare":
			on = true
		case "=false":
			on = false
		}
		host := cl + ".example"
		d := &Decl{Packages: []string{"A"}, Repos: []DRepo{{Name: "X", Alias: cl, Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: "x"}, {Name: "B", Ver: "1.1", Variant: "x"}}}}}
		redirect := map[string]string{}
		switch place {
		case "second":
			d.Repos = []DRepo{{Name: "G", Alias: "good", Src: []Pkg{{Name: "A", Ver: "1.0", Imports: "B", Variant: "x"}}}, d.Repos[0]}
			d.Repos[1].Src = d.Repos[1].Src[1:]
			d.Repos[1].Alias += "/two"
		case "binary":
			d.Repos[0].RepoType, d.Repos[0].Bin = "MPN", d.Repos[0].Src
		case "customized":
			d.Cust = []PkgCust{{Pkg: "A", Repo: "X"}}
		case "lists-redirect":
			d.Repos[0].Alias = "good"
			redirect["https://good.example/src/contrib/PACKAGES"] = "https://" + host + "/far/src/contrib/PACKAGES"
		case "archives-redirect":
			d.Repos[0].Alias = "good"
			for _, p := range d.Repos[0].Src {
				redirect["https://good.example/src/contrib/"+p.Name+"_"] = "https://" + host + "/far/src/contrib/" + p.Name + "_"
			}
		}
		if conf[g[0]] != "" {
			d.Extra = append(d.Extra, "NoSecure: "+conf[g[0]])
		}
		if o := others[g[5]]; o != "" {
			d.Extra = append(d.Extra, o)
		}
		wd, sc := d.build()
		sc.Redirect = redirect
		for range redirect {
			sc.WWW["https://"+host+"/far"] = sc.WWW["https://good.example"]
		}
		yml := strings.ReplaceAll(string(wd.Files["proj/pkgr.yml"]), "http://", "https://")
		if place == "direct" {
			px, err := w.startProxy()
			if err == nil {
				var m map[string]string
				if m, err = px.listenTLS(); err == nil {
					yml = strings.ReplaceAll(yml, host, m[cl])
				}
			}
			if err != nil {
				c.Broken("direct servers: %v", err)
				return
			}
		}
		wd.Add("proj/pkgr.yml", yml)
		wd.Files["ca.pem"] = lab.caPEM
		var steps []Step
		args := append([]string{}, cmd...)
		env := []string{"SSL_CERT_FILE=@ROOT@/ca.pem", "SSL_CERT_DIR=@ROOT@/none"}
		pre := 0
		if cmd[0] == "plan-insecurely" {
			steps = append(steps, Step{Opts: Opts{Args: []string{"plan", "--no-secure"}, Env: env}})
			args, pre = args[1:], 1
		}
		switch cli[g[1]] {
		case "":
		case "bare":
			args = append(args, "--no-secure")
		default:
			args = append(args, "--no-secure"+cli[g[1]])
		}
		if i%2 == 1 && len(args) > len(cmd)-pre {
			// in front of the command
			args = append([]string{args[len(args)-1]}, args[:len(args)-1]...)
			if args[0] == "--no-secure" {
				args = append(args[1:], args[0]) // bare: a value could be taken
			}
		}
		steps = append(steps, Step{Opts: Opts{Args: args, Env: env}})
		what := fmt.Sprintf("%v, NoSecure %q in the configuration, the server (%s) has the certificate %q", args, conf[g[0]], place, cl)
		k := &Kase{ID: fmt.Sprintf("tls %v", g), World: wd, Scen: sc, Desc: map[string]any{"config": yml, "redirect": redirect}, Steps: steps}
		k.Judge = func(r *Run) (string, string) {
			l := r.last()
			if crashed(l) {
				return "crash", what + ": " + tail(l.all(), 400)
			}
			bad := 0
			for _, u := range l.Web {
				if strings.HasPrefix(u, "https://"+host+"/") {
					bad++
				}
			}
			if cl != "good" && !on {
				if bad > 0 {
					return "unverified:" + cl, fmt.Sprintf("%s: the requests %v were made", what, l.Web)
				}
				for _, e := range l.Evs {
					if place == "lists-redirect" && pre == 1 {
						break // the lists were fetched with the user's consent, and are remembered
					}
					if e.T == "rstart" && e.Kind == "install" && (place != "second" || e.Pkg == "B" || e.Pkg == "A") {
						return "installed:" + cl, fmt.Sprintf("%s: R installed %s %s", what, e.Pkg, e.Ver)
					}
				}
				return "", ""
			}
			// nothing stands in the way
			if cmd[0] == "clean" {
				return "", ""
			}
			if l.Code != 0 {
				return "refused", fmt.Sprintf("%s: exit status %d: %s", what, l.Code, tail(l.all(), 400))
			}
			inst := has(args, "install") || has(args, "--install")
			if cl != "good" && bad == 0 && pre == 0 && (inst || place != "archives-redirect") {
				return "refused", fmt.Sprintf("%s: no request reached it: %v; %s", what, l.Web, tail(l.all(), 400))
			}
			if inst {
				for p, v := range map[string]string{"A": "1.0", "B": "1.1"} {
					s := r.end()
					if got := ParseDCF([]byte(s["proj/lib/"+p+"/DESCRIPTION"]))["Version"]; got != v {
						return "not-installed", fmt.Sprintf("%s: %s has version %q afterwards: %s", what, p, got, tail(l.all(), 400))
					}
				}
			}
			return "", ""
		}
		r := c.runKase(w, k, true)
		if r == nil {
			c.Broken("no loopback network")
			return
		}
		c.Count("cases", 1)
		c.Count("stock_executions", len(r.R))
		c.Count("executions", len(r.R))
		for j := range r.R {
			c.Edge(r.S[j].hash()+fmt.Sprint(g[2], g[3]), fmt.Sprint(steps[j].Args), fmt.Sprint(r.R[j].Code, len(r.R[j].Web)))
			c.Outcome(fmt.Sprint(g, r.R[j].Code, len(r.R[j].Web)))
		}
		if i < 3 {
			c.Sample("%s: exit %d, requests %v", what, r.last().Code, r.last().Web)
		}
		if sig, msg := k.Judge(r); sig != "" {
			again := 0
			for t := 0; t < 3; t++ {
				if x := c.runKase(w, k, true); x != nil {
					if s2, _ := k.Judge(x); s2 == sig {
						again++
					}
				}
			}
			if again >= 2 {
				c.Violate(sig, "case "+k.ID+": "+msg, map[string]any{"case": k.ID, "detail": k.Desc, "world": k.World.describe(), "steps": k.stepArgs(), "run": "the unmodified binary"})
			} else {
				c.Count("unconfirmed", 1)
			}
		}
	})
	for _, d := range done {
		if !d && c.nviol() == 0 {
			c.mu.Lock()
			c.trunc = true
			c.mu.Unlock()
			break
		}
	}
}

func init() {
	checks["C22"] = checkDef{title: "certificates", run: runC22}
}
