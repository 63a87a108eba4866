package mc

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// The journal is a shared mapping in which every worker notes the case it is running, so that the parent
// process can name the case when the child dies or hangs.
const (
	slotSize  = 8192
	slotCount = 64
)

type journal struct{ mem []byte }

func openJournal(path string) (*journal, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * slotCount); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*slotCount, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{mem}, nil
}

func (j *journal) stamp(slot int) *int64 {
	return (*int64)(unsafe.Pointer(&j.mem[slot*slotSize]))
}

func (j *journal) begin(slot int, space string, prefix []int, timed int) {
	b := j.mem[slot*slotSize : (slot+1)*slotSize]
	binary.LittleEndian.PutUint32(b[8:], uint32(timed))
	binary.LittleEndian.PutUint16(b[12:], uint16(len(space)))
	copy(b[16:16+64], space)
	n := len(prefix)
	if n > 1800 {
		n = 1800
	}
	binary.LittleEndian.PutUint32(b[80:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(b[84+4*i:], uint32(prefix[i]))
	}
	atomic.StoreInt64(j.stamp(slot), time.Now().UnixNano())
}

func (j *journal) end(slot int) { atomic.StoreInt64(j.stamp(slot), 0) }

type journaled struct {
	space   string
	choices []int
	since   time.Time
	limit   time.Duration
}

func (j *journal) read(slot int) *journaled {
	t := atomic.LoadInt64(j.stamp(slot))
	if t == 0 {
		return nil
	}
	b := j.mem[slot*slotSize : (slot+1)*slotSize]
	l := int(binary.LittleEndian.Uint16(b[12:]))
	if l > 64 {
		l = 64
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if n > 1800 {
		n = 1800
	}
	e := &journaled{space: string(b[16 : 16+l]), since: time.Unix(0, t), limit: 120 * time.Second}
	if x := binary.LittleEndian.Uint32(b[8:]); x > 0 {
		e.limit = time.Duration(x) * time.Second
	}
	for i := 0; i < n; i++ {
		e.choices = append(e.choices, int(binary.LittleEndian.Uint32(b[84+4*i:])))
	}
	return e
}
