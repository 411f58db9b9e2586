package kit

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"syscall"
)

// shared is a small memory-mapped region through which a worker tells the supervisor what it is running.
type shared struct {
	mem []byte
}

const sharedSize = 1 << 16

func openShared(path string, create bool) (*shared, error) {
	flag := os.O_RDWR
	if create {
		flag |= os.O_CREATE
	}
	f, err := os.OpenFile(path, flag, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err = f.Truncate(sharedSize); err != nil {
			return nil, err
		}
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, sharedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &shared{mem: mem}, nil
}

func (s *shared) close() { _ = syscall.Munmap(s.mem) }

func (s *shared) setIndex(i int64) {
	binary.LittleEndian.PutUint64(s.mem, uint64(i))
	binary.LittleEndian.PutUint64(s.mem[8:], 0)
}

func (s *shared) index() int64 { return int64(binary.LittleEndian.Uint64(s.mem)) }

func (s *shared) setID(id string) {
	if len(id) > sharedSize-64 {
		id = id[:sharedSize-64]
	}
	copy(s.mem[16:], id)
	binary.LittleEndian.PutUint64(s.mem[8:], uint64(len(id)))
}

func (s *shared) id() string {
	n := binary.LittleEndian.Uint64(s.mem[8:])
	if n > sharedSize-64 {
		return ""
	}
	return string(s.mem[16 : 16+n])
}

type record struct {
	More        int64 `json:"more,omitempty"`
	Kind        string
	Part        string   `json:",omitempty"`
	Index       int64    `json:",omitempty"`
	ID          string   `json:",omitempty"`
	Msg         string   `json:",omitempty"`
	Cases       int64    `json:",omitempty"`
	Execs       int64    `json:",omitempty"`
	Transitions int64    `json:",omitempty"`
	Nontrivial  int64    `json:",omitempty"`
	Rejected    int64    `json:",omitempty"`
	Truncated   string   `json:",omitempty"`
	StatesFull  bool     `json:",omitempty"`
	Samples     []string `json:",omitempty"`
	Total       int64    `json:",omitempty"`
}

func writeJSON(f *os.File, v interface{}) {
	data, _ := json.Marshal(v)
	data = append(data, '\n')
	_, _ = f.Write(data)
}
