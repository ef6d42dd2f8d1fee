seed("c37-first-bound","C37",[("net/hls/playlist.go","""	if pl.First == pl.Last {
		pl.First = (pl.First + 1) % len(pl.Segments)
	} else if pl.First < 0 {
		pl.First = pl.Last
	}""","""	switch pl.First {
	case pl.Last:
		pl.First++
	case -1, len(pl.Segments):
		pl.First = pl.Last
	}""")],
"net/hls",'''
package hls

import "testing"

func TestDemo(t *testing.T) {
	pl, _ := NewPlaylist("http://h/", "a", 3, 1)
	for i := 0; i < 9; i++ {
		pl.AddSegment(1, 1)
		_ = pl.String()
	}
}
''',"the window starts at the last element of the ring (second wrap)","rendering reads past the ring")
seed("c38-position","C38",[("net/hls/playlist.go","		pos = pl.Segments[pl.Last].Position + pl.Segments[pl.Last].Length","		last := pl.Segments[pl.Last]\n		if pl.First > pl.Last {\n			last = pl.Segments[pl.First]\n		}\n		pos = last.Position + last.Length")],
"net/hls",'''
package hls

import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 5; n++ {
		pl, err := NewPlaylist("https://example.com/media", "video.ts", n, 3.5)
		if err != nil {
			t.Fatal(err)
		}
		pos := 0
		for i := 1; i < 20; i++ {
			pl.AddSegment(1.5, int64(i))
			if s := pl.String(); !strings.Contains(s, fmt.Sprintf(":%d@%d\\n", i, pos)) {
				t.Fatalf("%d segments added: %s", i, s)
			}
			pos += i
		}
	}
}
''',"more segments than twice the capacity","the position is computed from the oldest segment once the window wraps")
seed("c38-drop-order","C38",[("net/hls/playlist.go","	if pl.First == pl.Last {\n","	if pl.First == pl.Last && pl.First < 7 {\n")],
"net/hls",'''
package hls

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for c := 1; c < 12; c++ {
		pl, err := NewPlaylist("https://example.com/media", "video.ts", c, 3.5)
		if err != nil {
			t.Fatal(err)
		}
		for i := 1; i < 40; i++ {
			pl.AddSegment(1.5, int64(i))
			n := i
			if n > c {
				n = c
			}
			if s := pl.String(); strings.Count(s, "#EXTINF") != n {
				t.Fatalf("%d segments added to %d: %s", i, c, s)
			}
		}
	}
}
''',"a capacity above seven and enough segments for the window to begin at index seven","the window shrinks to the newest segment instead of dropping the oldest")
