// Package vlumber replaces lumberjack: writes are handed to the harness.
package vlumber

import (
	"errors"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

type Logger struct {
	Filename   string
	MaxSize    int
	MaxAge     int
	MaxBackups int
	LocalTime  bool
	Compress   bool
}

// Sink receives every record; nil discards.
var Sink func(file, line string)

// Kept follows what of the records stays on disk, as lumberjack's rotation has
// it; for scenarios of one thread.
var Kept *Disk

type Disk struct {
	files map[string]*rotated
	Lost  int // records no file holds any more, or never held
}

type rotated struct {
	size, n int
	old     []int // records in the backups
}

func NewDisk() *Disk { return &Disk{files: map[string]*rotated{}} }

func (d *Disk) write(l *Logger, n int) bool {
	max := l.MaxSize
	if max == 0 {
		max = 100
	}
	max <<= 20
	if n > max {
		d.Lost++
		return false
	}
	f := d.files[l.Filename]
	if f == nil {
		f = &rotated{}
		d.files[l.Filename] = f
	}
	if f.size+n > max {
		f.old = append(f.old, f.n)
		f.size, f.n = 0, 0
		for l.MaxBackups > 0 && len(f.old) > l.MaxBackups {
			d.Lost += f.old[0]
			f.old = f.old[1:]
		}
	}
	f.size += n
	f.n++
	return true
}

func (l *Logger) Write(p []byte) (int, error) {
	if Kept != nil && !Kept.write(l, len(p)) {
		return 0, errors.New("write length exceeds maximum file size")
	}
	if Sink != nil {
		s := string(p)
		vrt.HistOp(vrt.HashStr(l.Filename))
		Sink(l.Filename, s)
	}
	return len(p), nil
}

func (l *Logger) Close() error  { return nil }
func (l *Logger) Rotate() error { return nil }
func (l *Logger) Sync() error   { return nil }
