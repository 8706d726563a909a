package harness

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/encoding/prototext"
	"pgregory.net/rapid"
)

// ---- C27: the server program and its clients ----

// serverProgram is the repository's cmd/vdbserver, built by run.py or else here.
var serverProgram = sync.OnceValue(func() string {
	if p := os.Getenv("VH_SERVER"); p != "" {
		return p
	}
	p := filepath.Join(newDir(), "vdbserver")
	wd, _ := os.Getwd()
	if b, err := exec.Command("go", "build", "-o", p, "github.com/continusec/verifiabledatastructures/cmd/vdbserver").CombinedOutput(); err != nil {
		fmt.Printf("VH-HARNESS-ERROR cannot build the server program in %s: %v\n%s\n", wd, err, b)
		os.Exit(8)
	}
	return p
})

type identity struct {
	certPEM, keyPEM, der []byte
}

func newIdentity() *identity {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Now().AddDate(-1, 0, 0), NotAfter: time.Now().AddDate(10, 0, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{loopback()}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		panic(err)
	}
	return &identity{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), der}
}

// identities are two self-signed certificates, of which the system trusts the first.
var identities = sync.OnceValue(func() [2]*identity {
	rv := [2]*identity{newIdentity(), newIdentity()}
	roots := newDir()
	if err := os.WriteFile(filepath.Join(roots, "roots.pem"), rv[0].certPEM, 0o600); err != nil {
		fmt.Println("VH-HARNESS-ERROR", err)
		os.Exit(8)
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(roots, "roots.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(roots, "none"))
	return rv
})

type serverProc struct {
	dir    string
	conf   *pb.ServerConfig
	usable bool // its endpoints are to come up
	cmd    *exec.Cmd
	out    *bytes.Buffer
	done   chan struct{}
	id     int // which identity is its own
	runs   int
}

// loopback is a local address that no other process of a check uses.
var loopback = sync.OnceValue(func() net.IP {
	pid := os.Getpid()
	return net.IPv4(127, byte(1+pid>>16&63), byte(pid>>8), byte(pid))
})

func freePort() int {
	l, err := net.Listen("tcp", loopback().String()+":0")
	if err != nil {
		fmt.Println("VH-HARNESS-ERROR no port:", err)
		os.Exit(8)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func up(network, addr string) bool {
	c, err := net.DialTimeout(network, addr, time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// start runs the program with the configuration and waits until what it must offer is there.
func (p *serverProc) start(t tb) {
	for try := 0; ; try++ {
		p.runs++
		p.conf.RestListenBind = fmt.Sprintf("%s:%d", loopback(), freePort())
		if p.conf.GrpcListenProtocol == "unix" {
			p.conf.GrpcListenBind = filepath.Join(p.dir, fmt.Sprintf("s%d", p.runs))
		} else {
			p.conf.GrpcListenBind = fmt.Sprintf("%s:%d", loopback(), freePort())
		}
		b, err := prototext.Marshal(p.conf)
		if err != nil {
			t.Fatalf("configuration: %v", err)
		}
		cf := filepath.Join(p.dir, "conf")
		if err := os.WriteFile(cf, b, 0o600); err != nil {
			fmt.Println("VH-HARNESS-ERROR", err)
			os.Exit(8)
		}
		p.out = &bytes.Buffer{}
		p.cmd = exec.Command(serverProgram(), cf)
		p.cmd.Dir = p.dir
		p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			fmt.Println("VH-HARNESS-ERROR cannot start the server:", err)
			os.Exit(8)
		}
		p.done = make(chan struct{})
		go func(c *exec.Cmd, done chan struct{}) { c.Wait(); close(done) }(p.cmd, p.done)
		if !p.usable || (!p.conf.RestServer && !p.conf.GrpcServer) {
			select {
			case <-p.done:
			case <-time.After(150 * time.Millisecond):
			}
			return
		}
		ok := false
		for i := 0; i < 6000 && !ok; i++ {
			ok = (!p.conf.RestServer || up("tcp", p.conf.RestListenBind)) && (!p.conf.GrpcServer || up(p.conf.GrpcListenProtocol, p.conf.GrpcListenBind))
			if ok {
				break
			}
			select {
			case <-p.done:
				i = 6000
			case <-time.After(5 * time.Millisecond):
			}
			progress()
		}
		if ok {
			select { // another program's port?
			case <-p.done:
				ok = false
			default:
			}
		}
		if ok {
			return
		}
		p.stop(syscall.SIGKILL)
		if strings.Contains(p.out.String(), "address already in use") && try < 20 {
			continue
		}
		t.Fatalf("the server did not come up with %v:\n%s", p.conf, p.out)
	}
}

func (p *serverProc) stop(sig syscall.Signal) {
	p.cmd.Process.Signal(sig)
	select {
	case <-p.done:
	case <-time.After(20 * time.Second):
		p.cmd.Process.Kill()
		<-p.done
	}
}

// A way of contacting the server.
type contact struct {
	grpc bool
	tls  bool
	root string // right, other, both, system
	form string // pem, der
}

func (c contact) String() string { return fmt.Sprintf("grpc=%v tls=%v root=%s", c.grpc, c.tls, c.root) }

// limited gives every call a deadline, so that a server that does not answer at all is noticed.
type limited struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	s server
}

func limit[Q, R any](ctx context.Context, q Q, f func(context.Context, Q) (R, error)) (R, error) {
	ctx, cancel := context.WithTimeout(ctx, 60*time.Second)
	defer cancel()
	return f(ctx, q)
}

func (l *limited) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return limit(ctx, q, l.s.LogAddEntry)
}
func (l *limited) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return limit(ctx, q, l.s.LogFetchEntries)
}
func (l *limited) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return limit(ctx, q, l.s.LogTreeHash)
}
func (l *limited) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return limit(ctx, q, l.s.LogInclusionProof)
}
func (l *limited) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return limit(ctx, q, l.s.LogConsistencyProof)
}
func (l *limited) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return limit(ctx, q, l.s.MapSetValue)
}
func (l *limited) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return limit(ctx, q, l.s.MapGetValue)
}
func (l *limited) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return limit(ctx, q, l.s.MapTreeHash)
}

func (p *serverProc) client(t tb, c contact) server {
	ids := identities()
	var pems []byte
	var der []byte
	switch c.root {
	case "right":
		pems, der = ids[p.id].certPEM, ids[p.id].der
	case "other":
		pems, der = ids[1-p.id].certPEM, ids[1-p.id].der
	case "both":
		pems = append(append([]byte{}, ids[1-p.id].certPEM...), ids[p.id].certPEM...)
		der = nil
	}
	if c.grpc {
		g := &grpc.Client{NoGrpcSecurity: !c.tls, Address: p.conf.GrpcListenBind}
		if p.conf.GrpcListenProtocol == "unix" {
			g.Address = "unix://" + p.conf.GrpcListenBind
		}
		if c.tls && c.root != "system" {
			g.CertDer = pems
			if c.form == "der" && der != nil {
				g.CertDer = der
			}
		}
		s, err := g.Dial()
		noErr(t, err, "a gRPC client for %v with a certificate in %s form", c, c.form)
		return &limited{s: s}
	}
	tr := &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{}}
	if pems != nil {
		tr.TLSClientConfig.RootCAs = x509.NewCertPool()
		tr.TLSClientConfig.RootCAs.AppendCertsFromPEM(pems)
	}
	scheme := "http://"
	if c.tls {
		scheme = "https://"
	}
	s, err := (&httprest.Client{BaseURL: scheme + p.conf.RestListenBind, HTTPClient: &http.Client{Transport: tr, Timeout: 60 * time.Second}}).Dial()
	noErr(t, err, "a REST client")
	return s
}

func writePerm(o *object) pb.Permission {
	if o.isMap {
		return pb.Permission_PERM_MAP_SET_VALUE
	}
	return pb.Permission_PERM_LOG_RAW_ADD
}

func TestC27_Program(t *testing.T) {
	check(t, 480, 8000, func(t *rapid.T) {
		k := newCase("C27")
		ids := identities()
		p := &serverProc{dir: newDir()}
		defer dropDir(p.dir)
		db := filepath.Join(p.dir, "db")
		if err := os.Mkdir(db, 0o700); err != nil {
			t.Fatalf("%v", err)
		}
		accounts := []string{oneOf(t, "account", restAccounts...), oneOf(t, "account", restAccounts...)}
		names := []string{oneOf(t, "name", restNames...), oneOf(t, "name", restNames...)}
		if accounts[0] == accounts[1] && names[0] == names[1] {
			names[1] += "2"
		}
		keys := [][]byte{[]byte("a"), []byte("b"), {0}, minedKey(minedPairs[9][0][0]), minedKey(minedPairs[9][0][1])}
		objs := []*object{newObject(accounts[0], names[0], false, keys), newObject(accounts[1], names[1], true, keys)}
		var rules []*pb.ResourceAccount

		for run, runs := 0, 1+pick(t, "restarts", 3); run < runs; run++ {
			// the configuration of this run
			p.conf = &pb.ServerConfig{InsecureServerForTesting: rapid.Bool().Draw(t, "insecure"), BoltDbPath: db, GrpcListenProtocol: oneOf(t, "grpcnet", "unix", "tcp"),
				RestServer: pick(t, "rest", 4) > 0, GrpcServer: pick(t, "grpc", 4) > 0}
			if run == 0 || rapid.Bool().Draw(t, "newpolicy") {
				rules = genRestPolicy(t, accounts, names)
				for _, a := range rules {
					for _, r := range a.Policy {
						r.AllowedFields = []string{"*"}
					}
				}
				switch pick(t, "nobody", 6) {
				case 0:
					rules = nil
				case 1:
					rules = []*pb.ResourceAccount{{Id: accounts[0]}}
				}
			}
			p.conf.Accounts = rules
			p.id = pick(t, "identity", 2)
			files := oneOf(t, "files", "good", "good", "good", "good", "good", "missing", "garbage", "mismatched", "unset")
			write := func(name string, b []byte) string {
				n := filepath.Join(p.dir, name)
				if err := os.WriteFile(n, b, 0o600); err != nil {
					t.Fatalf("%v", err)
				}
				return n
			}
			p.conf.ServerCertPath, p.conf.ServerKeyPath = write("cert", ids[p.id].certPEM), write("key", ids[p.id].keyPEM)
			switch files {
			case "missing":
				which := pick(t, "which", 3)
				if which != 0 {
					p.conf.ServerKeyPath += "-missing"
				}
				if which != 1 {
					p.conf.ServerCertPath += "-missing"
				}
			case "garbage":
				p.conf.ServerCertPath = write("garbage", []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"))
			case "mismatched":
				p.conf.ServerKeyPath = write("key2", ids[1-p.id].keyPEM)
			case "unset":
				p.conf.ServerCertPath, p.conf.ServerKeyPath = "", ""
			}
			p.usable = p.conf.InsecureServerForTesting || files == "good"
			conf := fmt.Sprintf("insecure=%v identity=%d files=%s rest=%v grpc=%v over %s", p.conf.InsecureServerForTesting, p.id, files, p.conf.RestServer, p.conf.GrpcServer, p.conf.GrpcListenProtocol)
			k.Op("run: %s", conf)
			p.start(t)
			func() {
				defer p.stop(oneOf(t, "signal", syscall.SIGKILL, syscall.SIGTERM))
				died := func() string {
					select {
					case <-p.done:
						return "; the server has exited:\n" + p.out.String()
					default:
						return ""
					}
				}
				var good []server
				for _, c := range []contact{{grpc: false, tls: false}, {grpc: true, tls: false}, {false, true, "right", ""}, {true, true, "right", oneOf(t, "form", "pem", "der")},
					{false, true, "both", ""}, {true, true, "both", "pem"}, {false, true, "other", ""}, {true, true, "other", oneOf(t, "form", "pem", "der")}, {false, true, "system", ""}, {true, true, "system", ""}} {
					on := p.usable && ((c.grpc && p.conf.GrpcServer) || (!c.grpc && p.conf.RestServer)) &&
						c.tls != p.conf.InsecureServerForTesting && (!c.tls || c.root == "right" || c.root == "both" || c.root == "system" && p.id == 0)
					if !on && pick(t, "try", 3) == 0 {
						continue
					}
					s := p.client(t, c)
					// a write by the account's owner
					var err error
					o := objs[pick(t, "obj", 2)]
					if o.isMap {
						mu := genMut(t, k, o.mm, keys)
						p, e := applyMut(o.vmap(s, "all"), mu)
						if err = e; err == nil {
							o.acks = append(o.acks, p.LeafHash())
							o.mm.Apply(mu)
						}
					} else {
						l := leafFor(pick(t, "n", 24))
						_, err = o.log(s, "all").Add(bg, l)
						if err == nil {
							o.lm.Add(l)
						}
					}
					k.Op("%v: %v", c, err == nil)
					if on && !allowed(rules, o.account, "all", o.name, writePerm(o)) {
						if code(err) != codes.PermissionDenied {
							t.Fatalf("a write over %v to a server with %s that allows nobody to: %v%s", c, conf, err, died())
						}
						good = append(good, s)
						k.NT("denied-" + c.String())
						continue
					}
					if on {
						noErr(t, err, "a write over %v to a server with %s%s", c, conf, died())
						good = append(good, s)
						k.NT("served-" + c.String())
						continue
					}
					if err == nil {
						t.Fatalf("a write over %v was accepted by a server with %s", c, conf)
					}
					if cd := code(err); cd == codes.PermissionDenied || cd == codes.NotFound {
						t.Fatalf("a request over %v was looked at by a server with %s: %v", c, conf, err)
					}
					k.NT("refused-" + c.String())
				}
				if !p.usable || (!p.conf.RestServer && !p.conf.GrpcServer) {
					k.Class("nothing-served")
					return
				}
				for i := 2 + pick(t, "steps", 10); i > 0; i-- { // requests under the policy
					s := good[pick(t, "client", len(good))]
					key := oneOf(t, "apikey", append([]string{"all"}, restKeys...)...)
					o := objs[pick(t, "obj", 2)]
					var err error
					var want bool
					var perm pb.Permission
					switch {
					case o.isMap && rapid.Bool().Draw(t, "read"):
						perm = pb.Permission_PERM_MAP_GET_VALUE
						_, err = o.vmap(s, key).TreeHead(bg, 0)
					case o.isMap:
						perm = pb.Permission_PERM_MAP_SET_VALUE
						mu := genMut(t, k, o.mm, keys)
						p, e := applyMut(o.vmap(s, key), mu)
						if err = e; err == nil {
							o.acks = append(o.acks, p.LeafHash())
							o.mm.Apply(mu)
						}
					case rapid.Bool().Draw(t, "read"):
						perm = pb.Permission_PERM_LOG_READ_HASH
						_, err = o.log(s, key).TreeHead(bg, 0)
					default:
						perm = pb.Permission_PERM_LOG_RAW_ADD
						l := leafFor(pick(t, "n", 24))
						if _, err = o.log(s, key).Add(bg, l); err == nil {
							o.lm.Add(l)
						}
					}
					want = allowed(rules, o.account, key, o.name, perm)
					if want {
						noErr(t, err, "%v on %s with key %q, which the policy allows%s", perm, o, key, died())
						k.Class("allowed")
					} else {
						if code(err) != codes.PermissionDenied {
							t.Fatalf("%v on %s with key %q, which the policy does not allow: %v%s", perm, o, key, err, died())
						}
						k.Class("denied")
					}
				}
				// all that was acknowledged, in this run and before, and nothing else
				for i, s := range good {
					if i == 0 || pick(t, "full", 3) == 0 {
						for _, o := range objs {
							if !allowed(rules, o.account, "all", o.name, writePerm(o)) {
								continue
							}
							o.full(t, s, "all", 2)
						}
					}
				}
				if d := died(); d != "" {
					t.Fatalf("configured with %s%s", conf, d)
				}
			}()
		}
		// the database holds exactly what was acknowledged
		st := openBackend("bolt", db)
		for _, o := range objs {
			o.full(t, instantService(st), "all", 4)
		}
		st.close()
		k.Done()
	})
}
