package props

import (
	"strings"

	"vcsim/core"
)

// near is a text that looks like s and is another one.
func near(r *core.Run, s string) string {
	if s == "" {
		return s
	}

	r.FaultFired("near-miss")

	n := []string{s + "0", s[:len(s)-1], "x" + s, strings.ToUpper(s) + "", s + " ", s[1:], s + "/", strings.ToUpper(s[:1]) + s[1:]}[r.Choose(8, "near")]
	if n == s {
		n += "x"
	}

	return n
}

// evilDID is the name of an attacker, which may look like that of one of its victims.
func evilDID(r *core.Run, victim string) string {
	return []string{"did:sim:evil", "did:sim:evil", victim + "x", victim[:len(victim)-1], strings.Replace(victim, "did:sim:", "did:sim:X", 1), "did:sim:" + strings.ToUpper(victim[len("did:sim:"):]),
		victim + ":a", "did:sim:a:" + victim[len("did:sim:"):]}[r.Choose(8, "evil-did")]
}
