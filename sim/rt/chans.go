package rt

import (
	"time"
	"unsafe"
)

// Channels of instrumented code stay real ones, but no task ever waits inside
// of an operation on one: it tries, and lets others go on until it succeeds.
// A channel without a buffer gets one of a single element, and who sends waits
// until what was sent has been received.

// MaxChans bounds the channels without a buffer in one run.
const MaxChans = 4096

type meeting struct {
	ch         unsafe.Pointer
	sent, recv int64
	ack        chan struct{} // for the race detector
}

var (
	meetings [MaxChans]meeting
	nmeet    int
	chanBusy bool // what tasks that wait for a channel wait on
)

//go:norace
func chanReset() {
	for i := 0; i < nmeet; i++ {
		meetings[i] = meeting{}
	}
	nmeet = 0
}

//go:norace
func keep(p unsafe.Pointer, ack chan struct{}) {
	if nmeet == MaxChans {
		panic("harness: too many channels")
	}
	meetings[nmeet] = meeting{ch: p, ack: ack}
	nmeet++
}

//go:norace
func meet(p unsafe.Pointer) *meeting {
	if p != nil {
		for i := 0; i < nmeet; i++ {
			if meetings[i].ch == p {
				return &meetings[i]
			}
		}
	}
	return nil
}

//go:norace
func (m *meeting) count(sent, recv int64) (int64, int64) {
	m.sent += sent
	m.recv += recv
	return m.sent, m.recv
}

func ptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// MakeChan makes a channel.
func MakeChan[C any](mk func(int) C, n int) C {
	if n != 0 {
		return mk(n)
	}
	c := mk(1)
	keep(ptr(c), make(chan struct{}, 1<<10))
	return c
}

// ChanWait lets others go on until there is news of a channel.
func ChanWait() {
	if !Active() {
		panic(Deadlock{})
	}
	Block(&chanBusy)
	if Aborted() {
		panic(Deadlock{})
	}
}

// News wakes those that wait for a channel.
func News() {
	if Active() {
		Wake(&chanBusy)
	}
}

// TrySend ...
func trySend[T any](c chan<- T, v T) bool {
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

// Send is c <- v.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		Y(-8)
		for !trySend(c, v) {
			if !Active() {
				select { // somebody who is not simulated may be there
				case c <- v:
					return
				case <-time.After(time.Second):
				}
			}
			ChanWait()
		}
		Sent(c)
	}
}

// Sent is called when something was sent.
func Sent[T any](c chan<- T) {
	News()
	if m := meet(ptr(c)); m != nil {
		n, got := m.count(1, 0)
		for got < n {
			ChanWait()
			_, got = m.count(0, 0)
		}
		select {
		case <-m.ack:
		default:
		}
	}
	Y(-8)
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	Y(-8)
	for {
		select {
		case v, ok = <-c:
			Received(c, ok)
			return
		default:
		}
		if !Active() {
			select {
			case v, ok = <-c:
				return
			case <-time.After(time.Second):
			}
		}
		ChanWait()
	}
}

// Received is called when something was received.
func Received[T any](c <-chan T, ok bool) {
	if m := meet(ptr(c)); m != nil && ok {
		m.count(0, 1)
		select {
		case m.ack <- struct{}{}:
		default:
		}
	}
	News()
	Y(-8)
}

// Close is close(c).
func Close[T any](c chan<- T) {
	Y(-8)
	close(c)
	News()
	Y(-8)
}
