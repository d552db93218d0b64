package webwire

// Contracts of the default session manager (C21, C27, C31): the file system is a ghost disk with faults.

import (
	"encoding/json"
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/qbeon/webwire-go/vrt"
)

// specFile is a file of the ghost disk.
type specFile struct {
	data []byte
	val  *sessionFile // the session it holds, nil: none
}

// specEnc is an encoded session.
type specEnc struct {
	data []byte
	val  *sessionFile
}

// specDisk is the file system as far as one session manager uses it.
type specDisk struct {
	mng       *DefaultSessionManager
	dir       string // the session directory
	key       string // the session worked on
	bad       bool   // the key can't name a file
	files     map[string]*specFile
	encs      []specEnc
	now       time.Time
	statErr   error
	readErr   error
	writeErr  error
	renameErr error
	removeErr error
	encodeErr error
	dirExists bool
	made      string // directory made
	perm      os.FileMode
	keep      bool // the session file is there and has to stay
}

var theDisk *specDisk

var specIOErr = errors.New("i/o error")

func specFault(name string) error {
	e := vrt.Err(name)
	vrt.Assume(e != os.ErrNotExist)
	return e
}

// touch: a path handed to the file system.
func (d *specDisk) touch(p string) {
	base := filepath.Base(p)
	vrt.Assert("C21.stays-in-session-directory", filepath.Dir(p) == filepath.Clean(d.dir))
	vrt.Assert("C21.no-other-session-file", base == d.key+".wwrsess" || !strings.HasSuffix(base, ".wwrsess"))
	vrt.Assert("C27.file-operations-serialized", vrt.HoldsLock(&d.mng.lock))
}

// lost: the disk refuses the name of the session file.
func (d *specDisk) lost(p string) bool { return d.bad && filepath.Base(p) == d.key+".wwrsess" }

// ---- models of the file functions ----

var _ = vrt.Stub(os.Stat, specStat)
var _ = vrt.Stub(os.Lstat, specStat)
var _ = vrt.Stub(os.IsNotExist, specIsNotExist)
var _ = vrt.Stub(os.MkdirAll, specMkdirAll)
var _ = vrt.Stub(os.Mkdir, specMkdirAll)
var _ = vrt.Stub(os.Remove, specRemove)
var _ = vrt.Stub(os.RemoveAll, specRemoveAll)
var _ = vrt.Stub(os.Rename, specRename)
var _ = vrt.Stub(ioutil.ReadFile, specReadFile)
var _ = vrt.Stub(ioutil.WriteFile, specWriteFile)
var _ = vrt.Stub(os.ReadFile, specReadFile)
var _ = vrt.Stub(os.WriteFile, specWriteFile)
var _ = vrt.Stub(json.Marshal, specEncode)
var _ = vrt.Stub(json.Unmarshal, specDecode)
var _ = vrt.Stub(time.Now, specNow)

func specNow() time.Time { return theDisk.now }

func specIsNotExist(err error) bool { return err == os.ErrNotExist }

func specStat(p string) (os.FileInfo, error) {
	d := theDisk
	p = filepath.Clean(p)
	if p == filepath.Clean(d.dir) {
		if d.statErr != nil {
			return nil, d.statErr
		}
		if !d.dirExists {
			return nil, os.ErrNotExist
		}
		return vrt.Any[os.FileInfo]("info"), nil
	}
	d.touch(p)
	if d.statErr != nil {
		return nil, d.statErr
	}
	if d.lost(p) {
		return nil, specIOErr
	}
	if d.files[p] == nil {
		return nil, os.ErrNotExist
	}
	return vrt.Any[os.FileInfo]("info"), nil
}

func specMkdirAll(p string, perm os.FileMode) error {
	d := theDisk
	p = filepath.Clean(p)
	vrt.Assert("C21.stays-in-session-directory", p == filepath.Clean(d.dir))
	if d.writeErr != nil {
		return d.writeErr
	}
	d.made, d.perm, d.dirExists = p, perm, true
	return nil
}

func specRemove(p string) error {
	d := theDisk
	p = filepath.Clean(p)
	d.touch(p)
	if d.removeErr != nil {
		return d.removeErr
	}
	if d.lost(p) {
		return specIOErr
	}
	if d.files[p] == nil {
		return os.ErrNotExist
	}
	vrt.Assert("C31.session-file-always-there", !d.keep || p != d.path())
	d.files[p] = nil
	return nil
}

func specRemoveAll(p string) error {
	if err := specRemove(p); err != os.ErrNotExist {
		return err
	}
	return nil
}

func specRename(from, to string) error {
	d := theDisk
	from, to = filepath.Clean(from), filepath.Clean(to)
	d.touch(from)
	d.touch(to)
	if d.renameErr != nil {
		return d.renameErr
	}
	if d.lost(to) || d.lost(from) {
		return specIOErr
	}
	f := d.files[from]
	if f == nil {
		return os.ErrNotExist
	}
	vrt.Assert("C31.session-file-always-there", !d.keep || from != d.path())
	vrt.Assert("C31.complete-session-installed", to != d.path() || f.val != nil)
	d.files[from] = nil
	d.files[to] = f
	return nil
}

func specReadFile(p string) ([]byte, error) {
	d := theDisk
	p = filepath.Clean(p)
	d.touch(p)
	if d.readErr != nil {
		return nil, d.readErr
	}
	if d.lost(p) {
		return nil, specIOErr
	}
	f := d.files[p]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return f.data, nil
}

func specWriteFile(p string, data []byte, perm os.FileMode) error {
	d := theDisk
	p = filepath.Clean(p)
	d.touch(p)
	if d.lost(p) {
		return specIOErr
	}
	// the process may stop, or the disk be full, when a part is written
	vrt.Assert("C31.session-file-replaced-at-once", p != d.path())
	if d.writeErr != nil {
		d.files[p] = &specFile{data: vrt.Bytes("partial")}
		return d.writeErr
	}
	var val *sessionFile
	for _, e := range d.encs {
		if vrt.SameSlice(e.data, data) {
			val = e.val
		}
	}
	d.files[p] = &specFile{data: data, val: val}
	return nil
}

func specEncode(v interface{}) ([]byte, error) {
	d := theDisk
	f, ok := v.(*sessionFile)
	if !ok {
		g, ok := v.(sessionFile)
		if !ok {
			vrt.Unmodelled()
		}
		f = &g
	}
	if d.encodeErr != nil {
		return nil, d.encodeErr
	}
	c := &sessionFile{Creation: f.Creation, LastLookup: f.LastLookup, Info: f.Info}
	b := vrt.Bytes("encoded")
	vrt.Assume(len(b) > 0)
	d.encs = append(d.encs, specEnc{b, c})
	return b, nil
}

func specDecode(b []byte, v interface{}) error {
	d := theDisk
	f, ok := v.(*sessionFile)
	if !ok {
		vrt.Unmodelled()
	}
	for _, e := range d.encs {
		if vrt.SameSlice(e.data, b) {
			f.Creation, f.LastLookup, f.Info = e.val.Creation, e.val.LastLookup, e.val.Info
			return nil
		}
	}
	// not the encoding of a session: decoded in part
	f.Creation = time.Unix(vrt.I64("garbage"), 0)
	return specIOErr
}

// ---- the disk ----

// specNameable: the key names a file of a directory.
func specNameable(key string) bool {
	name := key + ".wwrsess"
	return !strings.Contains(name, "/") && !strings.Contains(name, "\x00") && len(name) <= 255
}

// specNewDisk: an empty session directory and its manager.
func specNewDisk(key string) *specDisk {
	dir := vrt.ScratchDir()
	// no path of the native runs leads out of the scratch directory
	if vrt.Native() {
		vrt.Assume(strings.Count(key, "..") < 10 && !strings.HasPrefix(key, "/"))
		dir += "/sess"
		os.Mkdir(dir, 0700)
	}
	d := &specDisk{mng: &DefaultSessionManager{path: dir}, dir: dir, key: key, files: map[string]*specFile{}, dirExists: true}
	d.bad = !specNameable(key)
	d.now = specMoment("now")
	theDisk = d
	vrt.Assume(os.ErrNotExist != nil)
	vrt.UseStubs()
	return d
}

func (d *specDisk) path() string { return filepath.Join(d.dir, d.key+".wwrsess") }

func specMoment(name string) time.Time {
	return time.Unix(int64(vrt.Int(name, 1, 1<<32)), 0)
}

func specStored(name string) *sessionFile {
	x, y := vrt.String(name+".x"), vrt.String(name+".y")
	vrt.Assume(vrt.ValidText(x) && vrt.ValidText(y))
	return &sessionFile{Creation: specMoment(name + ".creation"), LastLookup: specMoment(name + ".lookup"), Info: map[string]interface{}{"x": x, "y": y}}
}

// specStoredAny: with any number of fields, or no info at all.
func specStoredAny(name string) *sessionFile {
	f := specStored(name)
	switch vrt.Int(name+".fields", 0, 3) {
	case 0:
		f.Info = nil
	case 1:
		delete(f.Info, "y")
	case 2:
		f.Info = map[string]interface{}{}
	}
	return f
}

// put: a session file, or a file that holds none.
func (d *specDisk) put(p string, val *sessionFile) {
	if vrt.Native() {
		b := []byte("{\"c\":\"2006-01-02T15:04:05Z\",\"l\":\"20")
		if val != nil {
			b, _ = json.Marshal(val)
		}
		os.MkdirAll(filepath.Dir(p), 0700)
		if ioutil.WriteFile(p, b, 0640) != nil {
			vrt.Assume(false)
		}
		return
	}
	f := &specFile{data: vrt.Bytes("stored"), val: val}
	vrt.Assume(len(f.data) > 0)
	if val != nil {
		d.encs = append(d.encs, specEnc{f.data, val})
	}
	d.files[p] = f
}

// get: the file is there; the session it holds.
func (d *specDisk) get(p string) (bool, *sessionFile) {
	if vrt.Native() {
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return false, nil
		}
		f := &sessionFile{}
		if json.Unmarshal(b, f) != nil {
			return true, nil
		}
		return true, f
	}
	f := d.files[p]
	if f == nil {
		return false, nil
	}
	return true, f.val
}

// break: file operations that fail natively.
func (d *specDisk) breakFile(p string) {
	if !vrt.Native() {
		return
	}
	if d.writeErr != nil {
		vrt.LimitWrites(20)
	}
	if d.readErr != nil {
		os.Remove(p)
		os.MkdirAll(p+"/x", 0700)
	}
}

func specSameInfo(a, b map[string]interface{}) bool {
	return len(a) == len(b) && specSameField(a, b, "x") && specSameField(a, b, "y")
}

func specSameField(a, b map[string]interface{}, name string) bool {
	av, aok := a[name]
	bv, bok := b[name]
	if !aok || !bok {
		return aok == bok
	}
	as, ok1 := av.(string)
	bs, ok2 := bv.(string)
	return ok1 && ok2 && as == bs
}

func specSameStored(a, b *sessionFile) bool {
	return a.Creation.Equal(b.Creation) && a.LastLookup.Equal(b.LastLookup) && specSameInfo(a.Info, b.Info)
}

// recent: the time of the operation.
func (d *specDisk) recent(t time.Time) bool {
	if vrt.Native() {
		e := time.Since(t)
		return e >= 0 && e < time.Minute
	}
	return t.Equal(d.now)
}

// specFSConn is a connection with a session.
type specFSConn struct {
	Connection
	sess *Session
}

func (c *specFSConn) Session() *Session  { return c.sess }
func (c *specFSConn) SessionKey() string { return c.sess.Key }
func (c *specFSConn) HasSession() bool   { return true }

// ---- C21 ----

// prove_C21_UnnameableKey: a key that names no file of the directory is no session.
func prove_C21_UnnameableKey() {
	d := specNewDisk(vrt.String("key"))
	vrt.Expect("unknown")
	vrt.Assume(d.bad)
	target := ""
	var decoy *sessionFile
	if vrt.Native() {
		target = filepath.Join(d.dir, d.key+".wwrsess")
		decoy = specStored("decoy")
		d.put(target, decoy)
	}
	switch vrt.Int("operation", 0, 2) {
	case 0:
		res, err := d.mng.OnSessionLookup(d.key)
		vrt.Assert("C21.unnameable-key-unknown", res == nil && err == nil)
		vrt.Cover("unknown")
	case 1:
		err := d.mng.OnSessionCreated(&specFSConn{sess: &Session{Key: d.key, Creation: d.now}})
		vrt.Assert("C21.unnameable-key-refused", err != nil)
	case 2:
		err := d.mng.OnSessionClosed(d.key)
		vrt.Assert("C21.unnameable-key-refused", err != nil)
	}
	if vrt.Native() {
		there, val := d.get(target)
		vrt.Assert("C21.nothing-outside-touched", there && val != nil && specSameStored(val, decoy))
	}
}

// prove_C21_C27_C31_Lookup: every state of the session file, of another one, and every failing operation.
func prove_C21_C27_C31_Lookup() {
	vrt.Expect("found")
	vrt.Expect("unknown")
	vrt.Expect("corrupt")
	vrt.Expect("failed")
	d := specNewDisk(vrt.String("key"))
	vrt.Assume(!d.bad)
	other := vrt.String("other")
	vrt.Assume(other != d.key && specNameable(other))
	p, q := d.path(), filepath.Join(d.dir, other+".wwrsess")
	oval := specStored("otherval")
	d.put(q, oval)
	var val *sessionFile
	kind := vrt.Int("state", 0, 2)
	switch kind {
	case 1:
		val = specStoredAny("stored")
		d.put(p, val)
		d.keep = true
	case 2:
		d.put(p, nil)
	}
	d.readErr, d.writeErr = specFault("read"), specFault("write")
	if !vrt.Native() {
		d.statErr, d.encodeErr, d.renameErr, d.removeErr = specFault("stat"), specFault("encode"), specFault("rename"), specFault("remove")
	}
	d.breakFile(p)
	res, err := d.mng.OnSessionLookup(d.key)
	vrt.LimitWrites(-1)
	there, after := d.get(p)
	healthy := d.statErr == nil && d.readErr == nil && d.writeErr == nil && d.encodeErr == nil && d.renameErr == nil && d.removeErr == nil
	if err != nil {
		vrt.Assert("C27.error-without-session", res == nil)
	}
	if healthy {
		vrt.Assert("C27.healthy-lookup-works", (err != nil) == (kind == 2))
	}
	if kind == 0 {
		if d.readErr == nil || !vrt.Native() {
			vrt.Assert("C27.missing-file-not-found", res == nil)
			vrt.Assert("C27.lookup-makes-no-file", !there)
			if err == nil {
				vrt.Cover("unknown")
			}
		}
	}
	if kind == 2 && d.readErr == nil {
		vrt.Assert("C27.corrupt-file-is-error", res == nil && err != nil)
		vrt.Cover("corrupt")
	}
	if kind != 0 && d.readErr != nil {
		vrt.Assert("C27.unreadable-file-is-error", res == nil && err != nil)
		vrt.Cover("failed")
	}
	if kind == 1 && err == nil && (d.readErr == nil || !vrt.Native()) {
		vrt.Cover("found")
		vrt.Assert("C27.lookup-returns-session", res != nil)
		if res != nil {
			vrt.Assert("C27.stored-session-returned", res.Creation().Equal(val.Creation) && res.LastLookup().Equal(val.LastLookup) && specSameInfo(res.Info(), val.Info))
		}
		vrt.Assert("C27.lookup-updates-last-lookup-only", there && after != nil && after.Creation.Equal(val.Creation) && d.recent(after.LastLookup) && specSameInfo(after.Info, val.Info))
	}
	if kind == 1 && err != nil && (d.readErr == nil || !vrt.Native()) {
		vrt.Assert("C31.old-or-new-session-kept", there && after != nil && after.Creation.Equal(val.Creation) && specSameInfo(after.Info, val.Info) && (after.LastLookup.Equal(val.LastLookup) || d.recent(after.LastLookup)))
	}
	othere, oafter := d.get(q)
	vrt.Assert("C21.other-session-untouched", othere && oafter != nil && specSameStored(oafter, oval))
}

// prove_C21_C27_C31_Created: a created session is stored whole, or not at all.
func prove_C21_C27_C31_Created() {
	vrt.Expect("stored")
	vrt.Expect("failed")
	d := specNewDisk(vrt.String("key"))
	vrt.Assume(!d.bad)
	other := vrt.String("other")
	vrt.Assume(other != d.key && specNameable(other))
	p, q := d.path(), filepath.Join(d.dir, other+".wwrsess")
	oval := specStored("otherval")
	d.put(q, oval)
	d.writeErr = specFault("write")
	if !vrt.Native() {
		d.encodeErr, d.renameErr, d.removeErr = specFault("encode"), specFault("rename"), specFault("remove")
	}
	sess, info := specNewStored(d.key)
	d.breakFile(p)
	err := d.mng.OnSessionCreated(&specFSConn{sess: sess})
	vrt.LimitWrites(-1)
	there, after := d.get(p)
	if d.writeErr == nil && d.encodeErr == nil && d.renameErr == nil && d.removeErr == nil {
		vrt.Assert("C27.healthy-store-works", err == nil)
	}
	if err == nil {
		vrt.Cover("stored")
		vrt.Assert("C27.session-stored", there && after != nil && after.Creation.Equal(sess.Creation) && after.LastLookup.Equal(sess.LastLookup) &&
			specSameInfo(after.Info, info))
	} else {
		vrt.Cover("failed")
		vrt.Assert("C31.incomplete-session-not-stored", !there || after != nil)
	}
	othere, oafter := d.get(q)
	vrt.Assert("C21.other-session-untouched", othere && oafter != nil && specSameStored(oafter, oval))
}

// specDiskInfo is session info with up to two fields.
type specDiskInfo struct {
	n    int
	x, y string
}

func (i *specDiskInfo) Fields() []string {
	switch i.n {
	case 0:
		return nil
	case 1:
		return []string{"x"}
	}
	return []string{"x", "y"}
}

func (i *specDiskInfo) Value(f string) interface{} {
	if f == "x" && i.n > 0 {
		return i.x
	}
	if f == "y" && i.n > 1 {
		return i.y
	}
	return nil
}

func (i *specDiskInfo) Copy() SessionInfo { return &specDiskInfo{i.n, i.x, i.y} }

// specNewStored: a session to store, without info or with up to two fields, and its fields.
func specNewStored(key string) (*Session, map[string]interface{}) {
	sess := &Session{Key: key, Creation: specMoment("creation"), LastLookup: specMoment("lastlookup")}
	n := vrt.Int("fields", -1, 2)
	if n < 0 {
		return sess, nil
	}
	x, y := vrt.String("x"), vrt.String("y")
	vrt.Assume(vrt.ValidText(x) && vrt.ValidText(y))
	sess.Info = &specDiskInfo{n, x, y}
	fields := map[string]interface{}{}
	if n > 0 {
		fields["x"] = x
	}
	if n > 1 {
		fields["y"] = y
	}
	return sess, fields
}

// prove_C21_C27_Closed: exactly the file of the session goes.
func prove_C21_C27_Closed() {
	vrt.Expect("removed")
	vrt.Expect("failed")
	d := specNewDisk(vrt.String("key"))
	vrt.Assume(!d.bad)
	other := vrt.String("other")
	vrt.Assume(other != d.key && specNameable(other))
	p, q := d.path(), filepath.Join(d.dir, other+".wwrsess")
	oval := specStored("otherval")
	d.put(q, oval)
	exists := vrt.Bool("exists")
	if exists {
		d.put(p, specStored("stored"))
	}
	if !vrt.Native() {
		d.statErr, d.readErr, d.writeErr, d.renameErr, d.removeErr = specFault("stat"), specFault("read"), specFault("write"), specFault("rename"), specFault("remove")
	}
	err := d.mng.OnSessionClosed(d.key)
	there, _ := d.get(p)
	if err == nil {
		vrt.Assert("C27.closed-session-file-gone", !there)
		vrt.Cover("removed")
	} else {
		vrt.Cover("failed")
	}
	if exists && d.statErr == nil && d.readErr == nil && d.writeErr == nil && d.renameErr == nil && d.removeErr == nil {
		vrt.Assert("C27.healthy-close-works", err == nil)
	}
	othere, oafter := d.get(q)
	vrt.Assert("C21.other-session-untouched", othere && oafter != nil && specSameStored(oafter, oval))
	if !there {
		d.statErr = nil
		res, err := d.mng.OnSessionLookup(d.key)
		vrt.Assert("C27.closed-session-not-found", res == nil && err == nil)
	}
}

// prove_C27_History: a session is stored, looked up twice and closed.
func prove_C27_History() {
	vrt.Expect("end")
	d := specNewDisk(vrt.String("key"))
	vrt.Assume(!d.bad)
	sess, info := specNewStored(d.key)
	vrt.Assert("C27.healthy-store-works", d.mng.OnSessionCreated(&specFSConn{sess: sess}) == nil)
	for i := 0; i < 2; i++ {
		res, err := d.mng.OnSessionLookup(d.key)
		vrt.Assert("C27.healthy-lookup-works", err == nil && res != nil)
		if res == nil {
			return
		}
		vrt.Assert("C27.stored-session-returned", res.Creation().Equal(sess.Creation) && specSameInfo(res.Info(), info))
		if i == 0 {
			vrt.Assert("C27.stored-session-returned", res.LastLookup().Equal(sess.LastLookup))
		} else {
			vrt.Assert("C27.last-lookup-returned", d.recent(res.LastLookup()))
		}
	}
	vrt.Assert("C27.healthy-close-works", d.mng.OnSessionClosed(d.key) == nil)
	res, err := d.mng.OnSessionLookup(d.key)
	vrt.Assert("C27.closed-session-not-found", res == nil && err == nil)
	vrt.Cover("end")
}

// prove_C27_Directory: the session directory is made when missing, and can be used.
func prove_C27_Directory() {
	vrt.Expect("made")
	vrt.Expect("used")
	d := specNewDisk("k")
	d.dirExists = vrt.Bool("exists")
	if vrt.Native() && !d.dirExists {
		os.Remove(d.dir)
	}
	existed := d.dirExists
	mng := NewDefaultSessionManager(d.dir)
	vrt.Assert("C27.manager-of-directory", mng != nil && mng.path == d.dir)
	if existed {
		vrt.Cover("used")
		vrt.Assert("C27.existing-directory-kept", d.made == "")
		return
	}
	vrt.Cover("made")
	if vrt.Native() {
		i, err := os.Stat(d.dir)
		vrt.Assert("C27.directory-made", err == nil)
		if err != nil {
			return
		}
		d.perm = i.Mode()
	} else {
		vrt.Assert("C27.directory-made", d.made == filepath.Clean(d.dir))
	}
	vrt.Assert("C27.directory-usable", d.perm&0700 == 0700)
}
