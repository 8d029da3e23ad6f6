package main

import "testing"

func TestRx(t *testing.T) {
	for _, c := range []struct {
		pat string
		ok  bool
	}{
		{`([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?s:[^'\\]|\\.)*')`, true},
		{`([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`, false},
		{`(\w+)=(\d+|'(?:\\(?s:.)|[^'\\])*')`, true},
		{`(\w+)=(\d+|'(?:\\.|[^'\\])*')`, false},
		{`(\w+?)=(\d+|'(?:\\(?s:.)|[^'\\])*')`, true},
		{`(\w+)=(\d+?|'(?:\\(?s:.)|[^'\\])*')`, false},
		{`([a-z0-9_]+)=(\d+|'(?s:[^'\\]|\\.)*')`, false},
		{`(?i)([a-z0-9_]+)=(\d+|'(?s:[^'\\]|\\.)*')`, true},
		{`([a-zA-Z0-9_]+)=([1-9]\d*|'(?s:[^'\\]|\\.)*')`, false},
		{`([a-zA-Z0-9_]+)=(\d+|'(?s:.)*')`, false},
		{`([a-zA-Z0-9_]+)=(\d+|'(?s:[^']|\\.)*')`, false},
	} {
		_, n, _, why := rxFacts(c.pat)
		if (n > 0) != c.ok {
			t.Errorf("%s: %v %s", c.pat, n > 0, why)
		} else {
			t.Log(c.pat, why)
		}
	}
}
