package main

import (
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

func TestLexer(t *testing.T) {
	b, err := os.ReadFile("/repo/kfgrammar/KuneiformLexer.interp")
	if err != nil {
		t.Skip(err)
	}
	s := string(b)
	var d []int64
	for _, x := range regexp.MustCompile(`-?\d+`).FindAllString(s[strings.Index(s, "atn:"):], -1) {
		n, _ := strconv.ParseInt(x, 10, 64)
		d = append(d, n)
	}
	os.Setenv("GOVER_SPECS", "../contracts")
	c := &tableConst{data: d}
	if !c.documentedLexer() {
		t.Fatal(c.why)
	}
	miss := 0
	for i := len(d) - 700; i < len(d); i += 7 {
		m := append([]int64(nil), d...)
		m[i]++
		x := &tableConst{data: m}
		if x.documentedLexer() {
			miss++
			t.Log("same", i, d[i-3:i+1])
		} else if i%3 == 0 {
			t.Log(x.why)
		}
	}
	t.Log(miss)
}
