
seed("c20-audio-pointer","C20",[("net/sdp/packet.go","					default:\n						m = nil\n","					case \"application\", \"text\", \"message\":\n						m = nil\n")],
"net/sdp","""
package sdp

import "testing"

func TestDemo(t *testing.T) {
	for _, k := range []string{"application", "audio", "image"} {
		f := Parse([]byte("v=0\\nm=video 0 RTP/AVP 96\\na=control:a\\nm=" + k + " 0 RTP/AVP 97\\na=control:b\\n"))
		if len(f) != 1 || f[0].Control != "a" {
			t.Fatalf("%s: %+v", k, f)
		}
	}
}
""","an audio description after a video one","attributes of the audio description overwrite those of the video feed")
seed("c20-grow-pointer","C20",[("net/sdp/packet.go","						m = &feeds[len(feeds)-1]","						if m == nil || len(feeds) > 1 {\n							m = &feeds[len(feeds)-1]\n						}"),("net/sdp/packet.go","	var m *Media\n","	var m *Media\n	feeds = make([]Media, 0, 2)\n	defer func() {\n		if len(feeds) == 0 {\n			feeds = nil\n		}\n	}()\n	m = &Media{}\n")],
"net/sdp","""
package sdp

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"v=0\\nm=audio 0 RTP/AVP 97\\nm=video 0 RTP/AVP 96\\na=control:a\\n", "v=0\\nm=video 0 RTP/AVP 96\\na=control:a\\n"} {
		f := Parse([]byte(s))
		if len(f) != 1 || f[0].Control != "a" {
			t.Fatalf("%q: %+v", s, f)
		}
	}
}
""","a video description that no other description precedes","its attributes are not recorded")
P="net/sdp/packet.go"
def c19(id,edits,text,needs,breaks):
    seed(id,"C19",edits,"net/sdp","""
package sdp

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	Parse([]byte("v=0\\nm=video 0 RTP/AVP 96\\n%s"))
}
"""%text,needs,breaks)
c19("c19-param",[(P,"""									if len(keyval) == 2 {
										key""".replace("\t\t\t\t\t\t\t\t\tif","								if").replace("\n\t\t\t\t\t\t\t\t\t\tkey","\n									key"),"""								if len(keyval) > 0 {
									key""")],"a=fmtp:96 packetization-mode=1;sizelength;\\n","a format parameter without a value","Parsing of the body panics.")
c19("c19-set",[(P,"""											m.SpropParameterSets = append""","""											if kind := val[0] & 0x1f; kind != 7 && kind != 8 {
												continue
											}
											m.SpropParameterSets = append""")],"a=fmtp:96 mode=1;sprop-parameter-sets=Z2QAKKzoBQBbkA==,\\n","an empty parameter set in the list","Parsing of the body panics.")
c19("c19-config",[(P,"""										m.Config, _ = hex.DecodeString(val)""","""										if cfg, err := hex.DecodeString(val); err == nil && cfg[0]>>3 != 0 {
											m.Config = cfg
										}""")],"a=fmtp:96 mode=1;config=\\n","a codec configuration that is empty","Parsing of the body panics.")
c19("c19-clock",[(P,"""						if len(keyval) >= 2 {
							key := keyval[0]
							switch strings""","""						if len(keyval) >= 2 {
							key := keyval[0][strings.Index(keyval[0], "H"):]
							switch strings""")],"a=rtpmap:96 MPEG4-GENERIC/16000/1\\n","an encoding whose name has no H","Parsing of the body panics.") if False else None
c19("c19-case",[(P,"""							switch strings.ToUpper(key) {""","""							if key[0] == 'x' {
								key = strings.TrimPrefix(key, "x-")
							}
							switch strings.ToUpper(key) {""")],"a=rtpmap:96 /90000\\n","a field that begins with a slash","Parsing of the body panics.")
c19("c19-comment",[(P,"""						if len(keyval) >= 2 {
							key := keyval[0]
							val := keyval[1]
""","""						if len(keyval) >= 2 {
							key := keyval[0]
							val := keyval[1]
							for val[len(val)-1] == ' ' || val[len(val)-1] == ';' {
								val = val[:len(val)-1]
							}
""")],"a=control:;\\n","an attribute whose value consists of separators","Parsing of the body panics.")
