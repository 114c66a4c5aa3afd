
LFF = "common/log/filter.go"
seed("c26-file-misses-module-records", "C26", "a log file is set and a module's own level hides a record the console's level would show",
 "the record is hidden from the console and missing in the log file", "common/log",
 [(LFF, "		if lv, ok := f.moduleLevels[module]; ok {\n			level = lv\n		}\n", "		if lv, ok := f.moduleLevels[module]; ok {\n			if e.Level > logrus.Level(lv) && lv < f.defaultLevel {\n				return nil, nil\n			}\n			level = lv\n		}\n")],
'''package log

import (
	"bytes"
	"io/ioutil"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	l := New()
	l.(*loggerWrapper).Logger.Out = ioutil.Discard
	var file bytes.Buffer
	if err := l.SetFileWriter(&file); err != nil {
		t.Fatal(err)
	}
	l.SetLevel(TraceLevel)
	l.SetModuleLevel("link", ErrorLevel)
	ml := l.WithFields(Fields{FieldKeyModule: "link"})
	ml.Errorf("first")
	ml.Warnf("second")
	l.Infof("third")
	for _, w := range []string{"first", "second", "third"} {
		if strings.Count(file.String(), w) != 1 {
			t.Fatalf("the log file lacks %q:\\n%s", w, file.String())
		}
	}
}
''')

MNF = "cmd/relay/main.go"
seed("c26-module-level-below-console", "C26", "a module level more detailed than the console level, set through a logger with fields",
 "the module's level is capped at the console's, so the module's detailed records never show", "common/log",
 [("common/log/log.go", "func (w entryWrapper) SetModuleLevel(mod string, lv Level) {\n", "func (w entryWrapper) SetModuleLevel(mod string, lv Level) {\n	if c := w.GetConsoleLevel(); lv > c {\n		lv = c\n	}\n")],
'''package log

import (
	"bytes"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	l := New()
	var out bytes.Buffer
	l.(*loggerWrapper).Logger.Out = &out
	l.SetLevel(TraceLevel)
	ml := l.WithFields(Fields{FieldKeyModule: "link"})
	ml.SetConsoleLevel(WarnLevel)
	ml.SetModuleLevel("link", DebugLevel)
	if lv := ml.GetModuleLevel("link"); lv != DebugLevel {
		t.Fatalf("module level %v", lv)
	}
	ml.Debugf("shown")
	l.Debugf("hidden")
	if !strings.Contains(out.String(), "shown") || strings.Contains(out.String(), "hidden") {
		t.Fatalf("console: %q", out.String())
	}
}
''')
