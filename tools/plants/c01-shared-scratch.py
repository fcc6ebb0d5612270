ID="c01-shared-scratch"; PROPERTY="C01"
NEEDS='two goroutines that look at message ids at the same time'
BREAKS='the message id of V2 frames is put together in memory that all calls share'
EDITS=[('frame.go', '\tmessageID := make([]byte, 4)\n\n\tcopy(messageID[0:3], frame[7:10])\n\n\treturn binary.LittleEndian.Uint32(messageID)\n', '\tcopy(idScratch[0:3], frame[7:10])\n\n\treturn binary.LittleEndian.Uint32(idScratch[:])\n'), ('frame.go', '// GetMessageID returns the ID of the message contained in the Frame\nfunc (frame FrameV2)', 'var idScratch [4]byte\n\n// GetMessageID returns the ID of the message contained in the Frame\nfunc (frame FrameV2)')]
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/botlink/go-mavlink2"
)

func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		f := make([]byte, 12)
		f[0], f[7], f[8], f[9] = 0xfd, byte(g), byte(g), byte(g)
		want := uint32(g) * 0x10101
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000000; i++ {
				if mavlink2.FrameV2(f).GetMessageID() != want {
					mu.Lock()
					bad++
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad, "goroutines read a wrong id")
		os.Exit(1)
	}
}
'''
