package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

// the word list, filled from the wordlist4096 module source at load time
var theWords []string
var theWordIdx = map[string]int{}

// loadWords reads the list the program embeds and checks the facts the word
// list contract relies on: 4096 distinct, non-empty, lower-case ASCII words.
func loadWords(pkgs []*packages.Package) error {
	var dir string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == "github.com/kklash/wordlist4096" && len(p.GoFiles) > 0 {
			dir = filepath.Dir(p.GoFiles[0])
		}
	})
	if dir == "" {
		return fmt.Errorf("wordlist4096 not loaded")
	}
	b, err := os.ReadFile(filepath.Join(dir, "wordlist4096.txt"))
	if err != nil {
		return err
	}
	theWords = strings.Fields(string(b))
	theWordIdx = map[string]int{}
	for i, w := range theWords {
		for _, c := range w {
			if c < 'a' || c > 'z' {
				return fmt.Errorf("word %q is not lower-case ASCII", w)
			}
		}
		theWordIdx[w] = i
	}
	if len(theWords) != 4096 || len(theWordIdx) != 4096 {
		return fmt.Errorf("word list does not have 4096 distinct words")
	}
	return nil
}
