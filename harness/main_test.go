package harness

import "testing"

func TestCheck(t *testing.T) { Execute(t) }

func TestSuite(t *testing.T) { suiteChild(t) }
