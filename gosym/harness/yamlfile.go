package harness

import (
	"io"
	"strconv"
	"strings"
)

// yamlFile is an extension or dialect file in which "@0", "@1", ... stand for
// strings. The symbolic engine decodes the template and puts the symbolic
// strings in; natively the file is rendered with their values.
type yamlFile struct {
	text string
	vals []string
	out  *strings.Reader
}

func (f *yamlFile) Template() (string, []string) { return f.text, f.vals }

func (f *yamlFile) Read(p []byte) (int, error) {
	if f.out == nil {
		t := f.text
		for i, v := range f.vals {
			t = strings.ReplaceAll(t, "\"@"+strconv.Itoa(i)+"\"", strconv.Quote(v))
		}
		f.out = strings.NewReader(t)
	}
	return f.out.Read(p)
}

var _ io.Reader = (*yamlFile)(nil)
