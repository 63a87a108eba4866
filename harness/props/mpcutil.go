package props

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"math/big"
	"sync"
	"sync/atomic"
)

// primePool is a random source for key generation that needs no search: reads of the size of a 1024-bit prime get the
// next of a pool of such primes, other reads get bytes that depend on the count of reads. To the code under test it is
// a random source like any other.
type primePool struct {
	primes [][]byte
	n      uint64
}

var (
	poolOnce sync.Once
	pool     *primePool
)

func detBytes(seed string, n uint64, p []byte) {
	var b [8]byte
	for i := 0; i < len(p); i += 32 {
		binary.BigEndian.PutUint64(b[:], n<<16+uint64(i))
		h := sha256.Sum256(append([]byte(seed), b[:]...))
		copy(p[i:], h[:])
	}
}

func newPrimePool() *primePool {
	poolOnce.Do(func() {
		pool = &primePool{primes: make([][]byte, 32)}
		var wg sync.WaitGroup
		for i := range pool.primes {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b := make([]byte, 128)
				detBytes("prime", uint64(i), b)
				b[0] |= 0xc0
				b[127] |= 1
				n := new(big.Int).SetBytes(b)
				for !n.ProbablyPrime(10) {
					n.Add(n, big.NewInt(2))
				}
				pool.primes[i] = n.FillBytes(make([]byte, 128))
			}(i)
		}
		wg.Wait()
	})
	return pool
}

func (s *primePool) Read(p []byte) (int, error) {
	n := atomic.AddUint64(&s.n, 1)
	if len(p) == 128 {
		return copy(p, s.primes[n%uint64(len(s.primes))]), nil
	}
	detBytes("bytes", n, p)
	return len(p), nil
}

// withPool runs f with the prime pool as the random source.
func withPool(f func()) {
	var src io.Reader = newPrimePool()
	old := rand.Reader
	rand.Reader = src
	defer func() { rand.Reader = old }()
	f()
}
