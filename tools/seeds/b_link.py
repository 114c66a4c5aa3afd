LINKFAKE = '''package link

import (
	"testing"
	"time"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type zzItem struct {
	k    MessageItemType
	size int64
	seq  int64
	h    int64
}

func (i *zzItem) Type() MessageItemType { return i.k }
func (i *zzItem) Len() int64            { return i.size }
func (i *zzItem) ProofHeight() int64    { return i.h }
func (i *zzItem) SrcHeight() int64      { return i.h }
func (i *zzItem) TargetHeight() int64   { return i.h }
func (i *zzItem) StartSeqNum() int64    { return i.seq }
func (i *zzItem) LastSeqNum() int64     { return i.seq }
func (i *zzItem) UpdateBMCLinkStatus(b *types.BMCLinkStatus) error {
	if i.seq > b.RxSeq {
		b.RxSeq = i.seq
	}
	if i.h > b.Verifier.Height {
		b.Verifier.Height = i.h
	}
	return nil
}

type zzStatus struct{ h, s int64 }

func (s *zzStatus) Height() int64 { return s.h }
func (s *zzStatus) Seq() int64    { return s.s }

type zzSender struct {
	ch    chan types.SenderMessage
	limit int
	sent  []types.RelayMessage
}

func (s *zzSender) Start() (<-chan types.SenderMessage, error)        { return s.ch, nil }
func (s *zzSender) Stop()                                             {}
func (s *zzSender) GetStatus() (*types.BMCLinkStatus, error)          { return &types.BMCLinkStatus{}, nil }
func (s *zzSender) Relay(rm types.RelayMessage) (int, error)          { s.sent = append(s.sent, rm); return rm.Id(), nil }
func (s *zzSender) GetMarginForLimit() int64                          { return 0 }
func (s *zzSender) TxSizeLimit() int                                  { return s.limit }

type zzRecv struct {
	Receiver
	built  [][]RelayMessageItem
	limits []int64
	next   []MessageProof
	bus    []BlockUpdate
}

func (r *zzRecv) GetHeightForSeq(int64) int64 { return 0 }
func (r *zzRecv) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]BlockUpdate, error) {
	r.limits = append(r.limits, limit)
	b := r.bus
	r.bus = nil
	return b, nil
}
func (r *zzRecv) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (MessageProof, error) {
	r.limits = append(r.limits, limit)
	if len(r.next) == 0 {
		return nil, nil
	}
	m := r.next[0]
	r.next = r.next[1:]
	return m, nil
}
func (r *zzRecv) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (BlockProof, error) {
	return nil, nil
}
func (r *zzRecv) BuildRelayMessage(rmis []RelayMessageItem) ([]byte, error) {
	r.built = append(r.built, rmis)
	return make([]byte, 1), nil
}

func zzLink(s *zzSender, r *zzRecv) *Link {
	cfg := &chain.Config{}
	cfg.Src.Address = "btp://0x1.icon/cx00"
	cfg.Dst.Address = "btp://0x2.icon/cx01"
	l := NewLink(cfg, r, log.New()).(*Link)
	l.s = s
	l.limitSize = int64(s.limit)
	return l
}

var _ = time.Second

'''
seed("c10-forget-partial-status", "C10", "a destination status that reaches a block's height while some of that block's messages are still undelivered",
 "the link forgets a received status before the destination has received its last message", "common/link",
 [("common/link/link.go", "		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {", "		if rs.Height() < bls.Verifier.Height || (rs.Height() == bls.Verifier.Height && rs.Seq() >= bls.RxSeq) {")],
LINKFAKE+'''func TestZZDemo(t *testing.T) {
	s := &zzSender{ch: make(chan types.SenderMessage), limit: 1000}
	l := zzLink(s, &zzRecv{})
	l.rss = append(l.rss, &zzStatus{10, 5})
	l.senderChannel(s, make(chan error, 10))
	st := &types.BMCLinkStatus{RxSeq: 3}
	st.Verifier.Height = 10
	s.ch <- st
	s.ch <- "sync"
	l.rmsMtx.Lock()
	defer l.rmsMtx.Unlock()
	if len(l.rss) != 1 {
		t.Fatal("status with undelivered messages forgotten")
	}
}
''')
seed("c10-second-proof-not-counted", "C10", "two message proofs bundled into one group before it is sent",
 "the size of a message proof after the first one in a group is not counted, so the builder is offered more space than the transaction has", "common/link",
 [("common/link/link.go", "		l.rmi.size += mp.Len()\n		if err := mp.UpdateBMCLinkStatus(bls); err != nil {\n			return err\n		}\n	}\n	return nil\n}", "		if sz := mp.Len(); l.rmi.size < sz {\n			l.rmi.size += sz\n		}\n		if err := mp.UpdateBMCLinkStatus(bls); err != nil {\n			return err\n		}\n	}\n	return nil\n}")],
LINKFAKE+'''func TestZZDemo(t *testing.T) {
	s := &zzSender{ch: make(chan types.SenderMessage), limit: 1000}
	r := &zzRecv{}
	r.bus = []BlockUpdate{&zzItem{k: TypeBlockUpdate, size: 100, h: 10}}
	r.next = []MessageProof{&zzItem{k: TypeMessageProof, size: 90, seq: 1}, &zzItem{k: TypeMessageProof, size: 90, seq: 2}, &zzItem{k: TypeMessageProof, size: 90, seq: 3}}
	l := zzLink(s, r)
	l.rss = append(l.rss, &zzStatus{10, 3})
	if err := l.BuildRelayMessage(&types.BMCLinkStatus{}); err != nil {
		t.Fatal(err)
	}
	want := []int64{1000, 900, 810, 720}
	if len(r.limits) != len(want) {
		t.Fatalf("limits %v", r.limits)
	}
	for i, w := range want {
		if r.limits[i] != w {
			t.Fatalf("space offered to the builder %v, want %v", r.limits, want)
		}
	}
	if len(s.sent) != 1 || len(r.built) != 1 || len(r.built[0]) != 4 {
		t.Fatalf("sent %d built %v", len(s.sent), r.built)
	}
}
''')
