package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
)

// What clients do with a namespace.
type likeNS interface {
	domain.Namespace
	DeleteProfile(user uint64) error
	GetProfile(user uint64) (*domain.Profile, error)
	Like(user uint64, item uint64) error
	Dislike(user uint64, item uint64) error
	DeleteItem(user uint64, item uint64) error
	GetSimilarProfiles(user uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(user uint64) (*[]domain.RecItem, error)
}

type engineOpts struct {
	dir    string
	name   string
	parent context.Context
	noLike bool
	// Called by the like storage with every batch before it's processed.
	batch func(actions []call)
	// Called for each action; may use the storages.
	apply func(e *engine, a call, d domain.DeltaStorage, x domain.IndexStorage)
	// Faults of opening by the kind of the storage.
	openFault func(kind string) error
	// The storage whose closing reports an error, though it's closed.
	closeFault string
	// Called with the result of closing a real storage.
	closed func(kind string, err error)
	// Called before a storage is closed.
	closing func(kind string)
}

// A namespace with recording storages around the real ones and a like storage
// that records what it's given.
type engine struct {
	opts   engineOpts
	ns     likeNS
	ctx    context.Context
	cancel context.CancelFunc

	mu        sync.Mutex
	events    []string // open and close events of the storages in order
	processed []call
	batches   []int
	late      []string // what happened when it must not
	open      map[string]int
	closed    chan struct{} // closed when the delta storage and the rest are
	busy      int32
	touched   int // unsynchronized on purpose: the race detector watches it
}

// An action as the clients and the like storage see it.
type call struct {
	kind domain.ActionType
	user uint64
	item uint64
}

func (a call) String() string {
	names := []string{"stop", "delete profile", "get profile", "like", "dislike", "delete item", "get similar", "recommend"}
	if a.kind >= 0 && a.kind < len(names) {
		return fmt.Sprintf("%s %d:%d", names[a.kind], a.user, a.item)
	}
	return fmt.Sprintf("action %d %d:%d", a.kind, a.user, a.item)
}

// The error that the like storage answers an action with.
type replyError struct{ a call }

func (e *replyError) Error() string { return "refused: " + e.a.String() }

// Whether the like storage refuses the action.
func (a call) refused() bool { return (a.user+a.item)%5 == 3 }

func newEngine(c *kase, opts engineOpts) *engine {
	e := &engine{opts: opts, open: map[string]int{}, closed: make(chan struct{})}
	parent := opts.parent
	if parent == nil {
		parent = context.Background()
	}
	e.ctx, e.cancel = context.WithCancel(parent)
	dto := domain.LikeNamespaceDto{
		Name:                mustName(opts.name),
		MaxSimilarProfiles:  10,
		DislikeFactor:       0.5,
		BasePath:            opts.dir,
		DeltaStorageFactory: &recDeltaFactory{e, delta.NewStorageFactory()},
		IndexStorageFactory: &recIndexFactory{e, index.NewStorageFactory()},
		LikeStorageFactory:  &recLikeFactory{e},
	}
	if opts.noLike {
		dto.LikeStorageFactory = nil
	}
	e.ns = domain.NewLikeNamespace(&dto)
	return e
}

func (e *engine) start() error { return e.ns.Start(e.ctx) }

func (e *engine) event(kind, what string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.events = append(e.events, what+" "+kind)
	switch what {
	case "open":
		e.open[kind]++
	case "close":
		e.open[kind]--
		if e.open[kind] < 0 {
			e.late = append(e.late, kind+" storage closed, though it isn't open")
		}
		if kind != "like" && e.open["like"] > 0 {
			e.late = append(e.late, kind+" storage closed before the like storage that depends on it")
		}
		if e.open["like"] == 0 && e.open["index"] == 0 && e.open["delta"] == 0 {
			select {
			case <-e.closed:
			default:
				close(e.closed)
			}
		}
	}
}

func (e *engine) openCount(kind string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.open[kind]
}

func (e *engine) misuse() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string{}, e.late...)
}

func (e *engine) addLate(format string, args ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.late = append(e.late, fmt.Sprintf(format, args...))
}

func (e *engine) history() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string{}, e.events...)
}

func (e *engine) processedCalls() []call {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]call{}, e.processed...)
}

// Waits until the storages are closed; false if that can't happen any more.
func (e *engine) closes() bool {
	if bubbled() {
		return patiently(e.closed, 24*time.Hour)
	}
	deadline := 20 * time.Second
	for i := 0; ; i++ {
		select {
		case <-e.closed:
			return true
		case <-time.After(deadline):
		}
		// Not expected. Nothing will ever happen if no code under test can run.
		active := false
		for _, s := range allStacks() {
			if hasRepoFrame(s) {
				st := stackState(s)
				if strings.HasPrefix(st, "run") || strings.HasPrefix(st, "sleep") || strings.HasPrefix(st, "syscall") || strings.HasPrefix(st, "IO") {
					active = true
				}
			}
		}
		if !active || i > 10 {
			return false
		}
		deadline = 10 * time.Second
	}
}

func (e *engine) waitClosed() {
	if !e.closes() {
		panic(failure{fmt.Sprintf("the storages aren't closed after the namespace was stopped: %v", e.history())})
	}
}

// The delta storages.
type recDeltaFactory struct {
	e *engine
	domain.DeltaStorageFactory
}

func (f *recDeltaFactory) wrap(s domain.DeltaStorage, err error) (domain.DeltaStorage, error) {
	if err != nil {
		return nil, err
	}
	f.e.event("delta", "open")
	return &recDelta{f.e, s}, nil
}

func (f *recDeltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if err := f.e.fault("delta"); err != nil {
		return nil, err
	}
	return f.wrap(f.DeltaStorageFactory.Open(file))
}

func (f *recDeltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if err := f.e.fault("delta"); err != nil {
		return nil, err
	}
	return f.wrap(f.DeltaStorageFactory.OpenMaybeRecover(file))
}

var errClose = errors.New("injected failure of closing")

func (e *engine) closeErr(kind string, err error) error {
	if err == nil && e.opts.closeFault == kind {
		return errClose
	}
	return err
}

func (e *engine) beforeClosing(kind string) {
	if e.opts.closing != nil {
		e.opts.closing(kind)
	}
}

func (e *engine) fault(kind string) error {
	if e.opts.openFault != nil {
		return e.opts.openFault(kind)
	}
	return nil
}

type recDelta struct {
	e *engine
	domain.DeltaStorage
}

func (s *recDelta) Close() error {
	s.e.beforeClosing("delta")
	err := s.DeltaStorage.Close()
	if s.e.opts.closed != nil {
		s.e.opts.closed("delta", err)
	}
	s.e.event("delta", "close")
	return s.e.closeErr("delta", err)
}

type recIndexFactory struct {
	e *engine
	f domain.IndexStorageFactory
}

func (f *recIndexFactory) OpenFile(path string) (domain.IndexStorage, error) {
	if err := f.e.fault("index"); err != nil {
		return nil, err
	}
	s, err := f.f.OpenFile(path)
	if err != nil {
		return nil, err
	}
	f.e.event("index", "open")
	return &recIndex{f.e, s}, nil
}

func (f *recIndexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if err := f.e.fault("index"); err != nil {
		if closer != nil {
			closer.Close()
		}
		return nil, err
	}
	s, err := f.f.Open(file, closer)
	if err != nil {
		return nil, err
	}
	f.e.event("index", "open")
	return &recIndex{f.e, s}, nil
}

type recIndex struct {
	e *engine
	domain.IndexStorage
}

func (s *recIndex) Close() error {
	s.e.beforeClosing("index")
	err := s.IndexStorage.Close()
	if s.e.opts.closed != nil {
		s.e.opts.closed("index", err)
	}
	s.e.event("index", "close")
	return s.e.closeErr("index", err)
}

// The like storages.
type recLikeFactory struct{ e *engine }

func (f *recLikeFactory) Recover(file domain.RandomAccessFile) error { return nil }

func (f *recLikeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, x domain.IndexStorage) (domain.LikeStorage, error) {
	if err := f.e.fault("like"); err != nil {
		return nil, err
	}
	f.e.event("like", "open")
	return &recLike{f.e, file, d, x}, nil
}

func (f *recLikeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, x domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, x)
}

type recLike struct {
	e    *engine
	file domain.RandomAccessFile
	d    domain.DeltaStorage
	x    domain.IndexStorage
}

func (s *recLike) Close() error {
	if atomic.LoadInt32(&s.e.busy) != 0 {
		s.e.addLate("the like storage is closed while it processes actions")
	}
	if s.e.openCount("delta") != 1 || s.e.openCount("index") != 1 {
		s.e.addLate("the like storage is closed after the storages it depends on")
	}
	s.e.beforeClosing("like")
	err := s.file.Close()
	s.e.event("like", "close")
	return s.e.closeErr("like", err)
}

func (s *recLike) ProcessActions(actions []domain.Action) error {
	e := s.e
	if !atomic.CompareAndSwapInt32(&e.busy, 0, 1) {
		e.addLate("actions are processed concurrently")
	}
	defer atomic.StoreInt32(&e.busy, 0)
	e.touched++
	if e.openCount("like") != 1 {
		e.addLate("%d actions are processed while the like storage isn't open", len(actions))
	}
	calls := make([]call, len(actions))
	for i, a := range actions {
		calls[i] = call{kind: a.ActionType}
		switch p := a.Payload.(type) {
		case domain.DeleteProfilePayload:
			calls[i].user = p.UserID
		case domain.GetProfilePayload:
			calls[i].user = p.UserID
		case domain.LikePayload:
			calls[i].user, calls[i].item = p.UserID, p.ItemID
		case domain.GetSimilarProfilesPayload:
			calls[i].user = p.UserID
		case domain.RecommendItemsPayload:
			calls[i].user = p.UserID
		default:
			e.addLate("action %d has the payload %T", a.ActionType, a.Payload)
		}
	}
	if e.opts.batch != nil {
		e.opts.batch(calls)
	}
	e.mu.Lock()
	e.batches = append(e.batches, len(actions))
	e.mu.Unlock()
	for i, a := range actions {
		k := calls[i]
		e.mu.Lock()
		e.processed = append(e.processed, k)
		e.mu.Unlock()
		if e.opts.apply != nil {
			e.opts.apply(e, k, s.d, s.x)
		}
		if k.refused() {
			a.Error <- &replyError{k}
			continue
		}
		switch p := a.Payload.(type) {
		case domain.GetProfilePayload:
			if k.user%7 == 6 {
				p.Profile <- nil
			} else {
				p.Profile <- &domain.Profile{UserID: k.user}
			}
		case domain.GetSimilarProfilesPayload:
			p.Profiles <- &[]domain.SimilarProfile{{Profile: &domain.Profile{UserID: k.user}, Similarity: 0.5}}
		case domain.RecommendItemsPayload:
			p.Items <- &[]domain.RecItem{{ItemID: k.user, Relevance: 0.25}}
		default:
			a.Error <- nil
		}
	}
	return nil
}

// Makes the call. Returns what the engine itself answered with, if it did, and
// how the answer differs from the one the like storage gives to this call.
func (e *engine) do(a call) (engineErr error, wrong string) {
	var err error
	what := ""
	switch a.kind {
	case domain.ActionDeleteProfile:
		err = e.ns.DeleteProfile(a.user)
	case domain.ActionGetProfile:
		var p *domain.Profile
		p, err = e.ns.GetProfile(a.user)
		if err == nil {
			if a.user%7 == 6 {
				if p != nil {
					what = fmt.Sprintf("%v got the profile of %d instead of none", a, p.UserID)
				}
			} else if p == nil || p.UserID != a.user {
				what = fmt.Sprintf("%v got the profile %v", a, p)
			}
		} else if p != nil {
			what = fmt.Sprintf("%v got both a profile and the error %v", a, err)
		}
	case domain.ActionLike:
		err = e.ns.Like(a.user, a.item)
	case domain.ActionDislike:
		err = e.ns.Dislike(a.user, a.item)
	case domain.ActionDeleteItem:
		err = e.ns.DeleteItem(a.user, a.item)
	case domain.ActionGetSimilarProfiles:
		var l *[]domain.SimilarProfile
		l, err = e.ns.GetSimilarProfiles(a.user)
		if err == nil && (l == nil || len(*l) != 1 || (*l)[0].Profile.UserID != a.user) {
			what = fmt.Sprintf("%v got somebody else's list %v", a, l)
		}
	case domain.ActionRecommendItems:
		var l *[]domain.RecItem
		l, err = e.ns.RecommendItems(a.user)
		if err == nil && (l == nil || len(*l) != 1 || (*l)[0].ItemID != a.user) {
			what = fmt.Sprintf("%v got somebody else's list %v", a, l)
		}
	}
	var re *replyError
	if errors.As(err, &re) {
		if re.a != a {
			what = fmt.Sprintf("%v got the answer to %v", a, re.a)
		} else if !a.refused() {
			what = fmt.Sprintf("%v was refused", a)
		}
		return nil, what
	}
	if err == nil && a.refused() {
		what = fmt.Sprintf("%v succeeded, though the storage refused it", a)
	}
	return err, what
}

var callKinds = []domain.ActionType{domain.ActionDeleteProfile, domain.ActionGetProfile, domain.ActionLike, domain.ActionDislike,
	domain.ActionDeleteItem, domain.ActionGetSimilarProfiles, domain.ActionRecommendItems}

// A call that no other one is equal to.
func (c *kase) genCall(client, n int) call {
	a := call{kind: callKinds[c.Intn(len(callKinds))], user: uint64(client)<<32 | uint64(n)<<8 | uint64(c.Intn(256))}
	switch a.kind {
	case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
		a.item = genID(c.Rand)
	}
	return a
}

// The ID of the current goroutine.
func goroutineID() string {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	return string(bytes.Fields(buf)[1])
}

// Waits until the goroutine is blocked in the code under test. Returns what it waits for, or nothing if it isn't seen blocked.
func waitBlocked(id string) string {
	prefix := "goroutine " + id + " ["
	for i := 0; i < 3000; i++ {
		for _, s := range allStacks() {
			if !strings.HasPrefix(s, prefix) {
				continue
			}
			st := stackState(s)
			if hasRepoFrame(s) && (strings.HasPrefix(st, "chan") || strings.HasPrefix(st, "select") ||
				strings.HasPrefix(st, "sync.") || strings.HasPrefix(st, "semacquire")) {
				return st
			}
		}
		time.Sleep(time.Millisecond)
	}
	return ""
}

// The contents of a file, nil if it doesn't exist.
func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
	return b
}
