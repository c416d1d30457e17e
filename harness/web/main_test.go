package web

import (
	"testing"

	"verifh/fw"
)

func TestVerif(t *testing.T) { fw.Main(t) }
