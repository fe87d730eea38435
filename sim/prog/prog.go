// Package prog holds simulated programs: pure data that fixes a whole run
// (configuration, operations, faults, crashes, scheduler parameters). The
// orchestrator generates and minimises them, the worker executes them.
package prog

// Row is the record type of every simulated table. The primary key is always a
// function of ID; V is unique per written row, so a value names its writer.
type Row struct {
	ID uint64 `json:"id" cbor:"id"`
	A  uint32 `json:"a" cbor:"a"`
	B  uint64 `json:"b,omitempty" cbor:"b,omitempty"`
	S  string `json:"s,omitempty" cbor:"s,omitempty"`
	G  int64  `json:"g,omitempty" cbor:"g,omitempty"`
	P  []byte `json:"p,omitempty" cbor:"p,omitempty"`
	V  uint64 `json:"v" cbor:"v"`
	X  string `json:"x,omitempty" cbor:"x,omitempty"`
}

// Unstorable is the X of records that some serializers refuse.
const Unstorable = "\x00unstorable"

// Blank is the record that the "lean" serializer stores as no bytes at all.
func Blank() Row { return Row{P: []byte{0, 0, 0}, V: 1 << 50} }

func (r *Row) IsBlank() bool {
	return r.ID == 0 && r.A == 0 && r.B == 0 && r.S == "" && r.G == 0 && string(r.P) == "\x00\x00\x00" && r.V == 1<<50 && r.X == ""
}

// Table configuration. PK: 0 uint64, 1 (uint32 group, uint64), 2 string,
// 3 int64 (half of the keys negative), 4 int32, 5 (byte, bytes), 6 big integer.
type Table struct {
	ID       int     `json:"id"`
	PK       int     `json:"pk"`
	Idx      []int   `json:"idx"`
	Ptr      bool    `json:"ptr,omitempty"`      // records are pointers
	Prefetch int     `json:"prefetch,omitempty"` // ScanPrefetchSize
	Ser      string  `json:"ser,omitempty"`      // "", json, cbor, msgpack, msgpackpool, msgp, vt, pb, lean
	Filter   *Filter `json:"filter,omitempty"`
	KV       bool    `json:"kv,omitempty"` // rows are plain keys of the user's key space; always the last one
}

type Filter struct {
	N       int     `json:"n"`
	FP      float64 `json:"fp"`
	Buckets int     `json:"buckets"`
	Store   string  `json:"store"`            // db fs
	Prefix  int     `json:"prefix,omitempty"` // family of key prefixes; not 0: filters in files share a directory
}

type Cfg struct {
	MemTable   int     `json:"memtable"`
	Block      int     `json:"block"`
	TargetFile int     `json:"targetfile"`
	Cache      int     `json:"cache"`
	L0         int     `json:"l0"`
	Format     int     `json:"format"` // 0 lowest, 1 newest
	Ser        string  `json:"ser"`
	Keys       int     `json:"keys"` // primary keys in play per table
	Tables     []Table `json:"tables"`
	Shared     bool    `json:"shared,omitempty"`  // one batch shared by all tasks
	Chunk      int     `json:"chunk,omitempty"`   // rows per chunk of a write call, 0: 7
	ReChunk    int     `json:"rechunk,omitempty"` // rows per chunk of ReIndex, 0: 5
	DelayP     float64 `json:"delayp,omitempty"`
	DelayMax   int64   `json:"delaymax,omitempty"`
}

type Sched struct {
	Seed     uint64     `json:"seed"`
	Rand     uint64     `json:"rand"`
	Yield    [4]float64 `json:"yield"`
	Pick     float64    `json:"pick"`
	Stall    float64    `json:"stall"`
	StallMax uint32     `json:"stallmax"`
	Tick     int64      `json:"tick"`
}

type Sel struct {
	Type string `json:"type"` // point points range ranges
	Rows []Row  `json:"rows"`
}

type Cond struct {
	Op    string `json:"op"` // eq gt gte lt lte and or not func
	Field string `json:"f,omitempty"`
	Val   uint64 `json:"v,omitempty"`
	Sub   []Cond `json:"sub,omitempty"`
}

type Inter struct {
	Idx int `json:"idx"`
	Sel Sel `json:"sel"`
}

type Query struct {
	Idx     int     `json:"idx"`
	Sel     *Sel    `json:"sel,omitempty"` // nil: default selector
	Filter  *Cond   `json:"filter,omitempty"`
	Order   string  `json:"order,omitempty"` // "", b, bdesc, v
	Reverse bool    `json:"rev,omitempty"`
	Offset  uint64  `json:"off,omitempty"`
	Limit   uint64  `json:"lim,omitempty"`
	After   *uint64 `json:"after,omitempty"` // n-th row of the unpaged result
	Inter   []Inter `json:"inter,omitempty"`
	Twice   bool    `json:"twice,omitempty"` // the query value is used for other queries and executions as well
}

type Fault struct {
	Kind  string `json:"kind"`
	Class string `json:"class"`
	Errno string `json:"errno"`
	Skip  int    `json:"skip"`
	Count int    `json:"count"`
	Short bool   `json:"short,omitempty"`
	Crash bool   `json:"crash,omitempty"`
}

// Op is one step of a task.
type Op struct {
	K     string `json:"k"`
	T     int    `json:"t,omitempty"` // table number (position)
	Rows  []Row  `json:"rows,omitempty"`
	B     int    `json:"b,omitempty"`    // batch; 0: none
	UK    int    `json:"uk,omitempty"`   // conflict function of upserts
	Full  bool   `json:"full,omitempty"` // delete with the stored record
	Sync  bool   `json:"sync,omitempty"`
	RW    bool   `json:"rw,omitempty"`
	Sel   *Sel   `json:"sel,omitempty"`
	Idx   int    `json:"idx,omitempty"`
	Rev   bool   `json:"rev,omitempty"`
	Mode  int    `json:"mode,omitempty"`
	Q     *Query `json:"q,omitempty"`
	N     int    `json:"n,omitempty"`
	Tabs  []int  `json:"tabs,omitempty"`
	Fault *Fault `json:"fault,omitempty"`
	Ctx   int    `json:"ctx,omitempty"` // 0 none, 1 cancelled before, n>1 cancelled after n scheduling points
	Name  string `json:"name,omitempty"`
	Sub   []Op   `json:"sub,omitempty"`
}

type Crash struct {
	At   uint64 `json:"at,omitempty"` // number of the mutating file system call, 0: end of the phase
	Mode string `json:"mode"`         // none all prefix
	Seed uint64 `json:"seed"`
}

// Phase is the life of one process.
type Phase struct {
	Tasks      [][]Op   `json:"tasks"`
	End        string   `json:"end"` // close crash
	Crash      *Crash   `json:"crash,omitempty"`
	LateInit   bool     `json:"lateinit,omitempty"` // filters are initialized while the tasks run
	NoInit     bool     `json:"noinit,omitempty"`   // filters are not initialized at all
	NoWAL      bool     `json:"nowal,omitempty"`    // without a write-ahead log: synchronous commits are refused
	WallJump   int64    `json:"walljump,omitempty"` // seconds the wall clock is off in this process
	Format     *int     `json:"format,omitempty"`
	OpenFaults []*Fault `json:"openfaults,omitempty"` // armed while the database is opened
	AddIdx     [][]int  `json:"addidx,omitempty"`     // per table: indexes added with re-indexing after opening
}

type Program struct {
	Prop   string  `json:"prop"`
	Scen   string  `json:"scen,omitempty"`
	Seed   uint64  `json:"seed"`
	Sched  Sched   `json:"sched"`
	Cfg    Cfg     `json:"cfg"`
	Phases []Phase `json:"phases"`
	Leaks  bool    `json:"leaks,omitempty"`  // count goroutines after Close
	Expect string  `json:"expect,omitempty"` // class of the failure of a known finding
	N      int     `json:"n,omitempty"`      // scenario parameters
	M      int     `json:"m,omitempty"`
}

// Result is what a worker prints.
type Result struct {
	Seed      uint64         `json:"seed"`
	Fail      string         `json:"fail,omitempty"` // class: short, stable
	Detail    string         `json:"detail,omitempty"`
	Findings  []string       `json:"findings,omitempty"`
	Ops       int            `json:"ops"`
	OpKinds   map[string]int `json:"opkinds,omitempty"`
	Checks    int            `json:"checks"`
	Faults    map[string]int `json:"faults,omitempty"`
	Crashes   int            `json:"crashes"`
	Torn      int            `json:"torn"`
	LostW     int            `json:"lostw"`
	LostD     int            `json:"lostd"`
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	Switches  uint64         `json:"switches"`
	Preempts  uint64         `json:"preempts"`
	Stalls    uint64         `json:"stalls"`
	Jumps     uint64         `json:"jumps"`
	SimNS     int64          `json:"simns"`
	SchedHash uint64         `json:"schedhash"`
	Hash      uint64         `json:"hash"` // history and file system
	FSCalls   uint64         `json:"fscalls"`
	Mut       []uint64       `json:"mut,omitempty"` // mutating calls per phase
	NDev      int            `json:"ndev"`
	Overflow  bool           `json:"overflow,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	Points    []byte         `json:"points,omitempty"` // scheduling points reached
}

// RNG is splitmix64.
type RNG struct{ S uint64 }

func (r *RNG) U64() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *RNG) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func (r *RNG) Pick(v ...int) int { return v[r.N(len(v))] }

func (r *RNG) F(v ...float64) float64 { return v[r.N(len(v))] }

func Mix(a, b uint64) uint64 {
	r := RNG{a ^ (b+1)*0xd1342543de82ef95}
	r.U64()
	return r.U64()
}
