seed(id="c21-flag-pasted", property="C21", pkg="cmd", package="main",
 edits=[("cmd/main.go", '''f.VarP(&sa.BlockKeySize, "block-key"''', '''f.VarP(&sa.HashKeySize, "block-key"''')],
 needs="the adapter is started with a block key size of 16 or 24, or one that differs from the default",
 breaks="--block-key sets the size of the hash key: valid sizes are rejected, and 64 is accepted",
 demo='''
func TestDemo(t *testing.T) {
	for in, ok := range map[string]bool{"16": true, "24": true, "32": true, "64": false, "0": false} {
		err := getCmd().PersistentFlags().Set("block-key", in)
		if (err == nil) != ok {
			t.Fatalf("--block-key=%s: %v", in, err)
		}
	}
	for in, ok := range map[string]bool{"16": false, "24": false, "32": true, "64": true, "0": false} {
		err := getCmd().PersistentFlags().Set("hash-key", in)
		if (err == nil) != ok {
			t.Fatalf("--hash-key=%s: %v", in, err)
		}
	}
}
''')

seed(id="c26-synced-early", property="C26", pkg="adapter/policy/controller",
 edits=[("adapter/policy/controller/controller.go", '''	return c.Informer.HasSynced()
''', '''	return c.Informer.GetIndexer() != nil
''')],
 needs="the API server takes a moment to answer the first list of an object kind (or answers it with an error) when the adapter starts",
 breaks="the adapter answers requests before it knows the policies of the cluster and lets protected requests through",
 demo='''
type informer struct {
	cache.SharedIndexInformer
	idx cache.Indexer
}

func (i informer) GetIndexer() cache.Indexer  { return i.idx }
func (i informer) GetStore() cache.Store      { return i.idx }
func (i informer) HasSynced() bool            { return false }
func (i informer) Run(stop <-chan struct{})   { <-stop }
func (i informer) LastSyncResourceVersion() string { return "" }

func TestDemo(t *testing.T) {
	synced := make(chan struct{})
	c := &Controller{Queue: workqueue.NewRateLimitingQueue(workqueue.DefaultControllerRateLimiter()), Synced: synced,
		Informer: informer{idx: cache.NewIndexer(cache.MetaNamespaceKeyFunc, nil)}}
	stop := make(chan struct{})
	defer close(stop)
	go c.Run(stop)
	select {
	case <-synced:
		t.Fatal("the controller claims to have processed the existing objects although none have been listed")
	case <-time.After(700 * time.Millisecond):
	}
}
''')

seed(id="c26-target-unchecked", property="C26",
 edits=[("adapter/adapter.go", '''r.Instance.Request == nil || r.Instance.Target == nil {''', '''r.Instance.Request == nil {''')],
 needs="a message without a target (a mixer whose instance lacks the part)",
 breaks="the message brings down the whole adapter process",
 demo='''
func TestDemo(t *testing.T) {
	w := newDemo(t)
	w.set(w.jwtConfig("j"), pol("p", "svc", prefix("/a", "ALL", use("jwt", "j"))))
	defer func() {
		if p := recover(); p != nil {
			t.Fatal("the message brings down the adapter:", p)
		}
	}()
	r := &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{Request: &authnz.RequestMsg{Headers: &authnz.HeadersMsg{}, Params: &authnz.QueryParamsMsg{}}}}
	if _, err := w.a.HandleAuthnZ(nil, r); err == nil {
		t.Fatal("no error")
	}
}
''')
