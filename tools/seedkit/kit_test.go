package zzdemo

// A small publisher and client kit for the demonstration next to it.

import (
	"crypto"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"
)

func ck(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// key is a deterministic ed25519 key.
type key struct {
	s signature.Signer
	k *metadata.Key
}

func newKey(name string) key {
	seed := sha256.Sum256([]byte(name))
	p := ed25519.NewKeyFromSeed(seed[:])
	s, err := signature.LoadSigner(p, crypto.Hash(0))
	if err != nil {
		panic(err)
	}
	k, err := metadata.KeyFromPublicKey(p.Public())
	if err != nil {
		panic(err)
	}
	return key{s, k}
}

var (
	kr, kt, ks, kg, kd = newKey("root"), newKey("timestamp"), newKey("snapshot"), newKey("targets"), newKey("delegated")
	future             = time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	past               = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
)

func sign[T metadata.Roles](m *metadata.Metadata[T], ks ...key) []byte {
	m.ClearSignatures()
	for _, k := range ks {
		if _, err := m.Sign(k.s); err != nil {
			panic(err)
		}
	}
	b, err := m.ToBytes(false)
	if err != nil {
		panic(err)
	}
	return b
}

func newRoot(version int64, cs bool) *metadata.Metadata[metadata.RootType] {
	m := metadata.Root(future)
	m.Signed.Version, m.Signed.ConsistentSnapshot = version, cs
	for role, k := range map[string]key{"root": kr, "timestamp": kt, "snapshot": ks, "targets": kg} {
		if err := m.Signed.AddKey(k.k, role); err != nil {
			panic(err)
		}
	}
	return m
}

func newTimestamp(version, snapshot int64) *metadata.Metadata[metadata.TimestampType] {
	m := metadata.Timestamp(future)
	m.Signed.Version = version
	m.Signed.Meta["snapshot.json"] = metadata.MetaFile(snapshot)
	return m
}

func newSnapshot(version int64, roles map[string]int64) *metadata.Metadata[metadata.SnapshotType] {
	m := metadata.Snapshot(future)
	m.Signed.Version = version
	m.Signed.Meta = map[string]*metadata.MetaFiles{}
	for r, v := range roles {
		m.Signed.Meta[r+".json"] = metadata.MetaFile(v)
	}
	return m
}

func newTargets(version int64, files map[string]string) *metadata.Metadata[metadata.TargetsType] {
	m := metadata.Targets(future)
	m.Signed.Version = version
	for p, data := range files {
		tf, err := metadata.TargetFile().FromBytes(p, []byte(data))
		if err != nil {
			panic(err)
		}
		m.Signed.Targets[p] = tf
	}
	return m
}

// server is a Fetcher over a map from path to content; errs gives HTTP codes instead.
type server struct {
	files map[string][]byte
	errs  map[string]int
	log   []string
}

const base = "https://repo.example/md/"

func (s *server) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	p := strings.TrimPrefix(u, base)
	s.log = append(s.log, p)
	if c := s.errs[p]; c != 0 {
		return nil, metadata.ErrDownloadHTTP{StatusCode: c, URL: u}
	}
	b, ok := s.files[p]
	if !ok {
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	}
	if int64(len(b)) > maxLength {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return append([]byte{}, b...), nil
}

// world is an honest repository without consistent snapshots.
func world(ver int64, files map[string]string) *server {
	return &server{errs: map[string]int{}, files: map[string][]byte{
		"timestamp.json": sign(newTimestamp(ver, ver), kt),
		"snapshot.json":  sign(newSnapshot(ver, map[string]int64{"targets": ver}), ks),
		"targets.json":   sign(newTargets(ver, files), kg),
	}}
}

func client(t *testing.T, dir string, root []byte, s *server, edit func(c *config.UpdaterConfig)) *updater.Updater {
	t.Helper()
	c, err := config.New(base, root)
	ck(t, err)
	c.Fetcher = s
	c.LocalMetadataDir = filepath.Join(dir, "md")
	c.LocalTargetsDir = filepath.Join(dir, "tg")
	if edit != nil {
		edit(c)
	}
	up, err := updater.New(c)
	ck(t, err)
	return up
}

func sha(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func exists(p string) bool { _, err := os.Stat(p); return err == nil }
