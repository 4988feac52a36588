// Package logs checks what the verbosity options select (C29).
package logs

import (
	"bytes"
	"errors"
	"strings"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var levels = []string{"ERROR", "WARN", "INFO", "DEBUG"}

func say(log *zap.SugaredLogger, level, style int, text string) {
	switch level*3 + style {
	case 0:
		log.Error(text)
	case 1:
		log.Errorf("%s", text)
	case 2:
		log.Errorw(text, "k", 7)
	case 3:
		log.Warn(text)
	case 4:
		log.Warnf("%s", text)
	case 5:
		log.Warnw(text, "k", 7)
	case 6:
		log.Info(text)
	case 7:
		log.Infof("%s", text)
	case 8:
		log.Infow(text, "k", 7)
	case 9:
		log.Debug(text)
	case 10:
		log.Debugf("%s", text)
	case 11:
		log.Debugw(text, "k", 7)
	}
}

type named struct{ bytes.Buffer }

func (n *named) Name() string { return "debug.log" }

type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("no space left") }

// Logger logs messages.
//
//verif:harness C29 logger messages=2 thorough:messages=3
//verif:bound every 64-bit verbosity; sequences of up to messages messages at any level and in any style; with no debug log, one with or one without a name; either log may fail
//verif:reach shown hidden
func Logger() {
	v := int(sym.Int64("verbosity"))
	var out, dbg named
	var log *zap.SugaredLogger
	debug := sym.Choose("debug", 3)
	broken := sym.Bool("broken")
	switch {
	case debug == 0:
		log = logger.New(v, &out, nil)
	case debug == 1 && broken:
		log = logger.New(v, full{}, &dbg.Buffer)
	case debug == 1:
		log = logger.New(v, &out.Buffer, &dbg.Buffer)
	case broken:
		log = logger.New(v, &out, full{})
	default:
		log = logger.New(v, &out.Buffer, &dbg)
	}
	var want, wantDbg []string
	if debug == 2 && !broken {
		wantDbg = append(wantDbg, "INFO logging to: debug.log")
		if v >= 2 {
			want = append(want, "INFO logging to: debug.log")
		}
	}
	for i, n := 0, sym.Param("messages", 1); i < n; i++ {
		level := sym.Choose("level", 4)
		text := []string{"first", "second", "third"}[i]
		say(log, level, sym.Choose("style", 3), text)
		if level == 0 || v >= level {
			sym.Reach("shown")
			want = append(want, levels[level]+" "+text)
		} else {
			sym.Reach("hidden")
		}
		wantDbg = append(wantDbg, levels[level]+" "+text)
	}
	if !(debug == 1 && broken) {
		compare(out.String(), want, 0)
	}
	if debug == 1 || debug == 2 && !broken {
		compare(dbg.String(), wantDbg, 1)
	}
}

// compare requires exactly the wanted messages in order; skip fields (the time) come before the level.
func compare(got string, want []string, skip int) {
	if got == "" {
		sym.Assert(len(want) == 0, "every selected message is logged")
		return
	}
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	sym.Assert(len(lines) >= len(want), "every selected message is logged")
	sym.Assert(len(lines) == len(want), "only selected messages are logged")
	for i, l := range lines {
		f := strings.Split(l, "\t")
		sym.Assert(len(f) >= 2+skip, "a message has its level and text")
		sym.Assert(f[skip]+" "+f[skip+1] == want[i], "messages are logged as given and in order")
	}
}
