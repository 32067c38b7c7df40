// Executes scripts of library calls against the real code and records what
// each call did, one line per event.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync/atomic"
	"time"
)

type raw = map[string]json.RawMessage

// arguments any event may carry
type Args struct {
	Op    string  `json:"op"`
	T     TN      `json:"t"`
	V     VN      `json:"v"`
	Sl    int     `json:"sl"`
	Path  string  `json:"path"`
	By    string  `json:"by"`
	Lim   int     `json:"lim"`
	Lims  []int   `json:"lims"`
	Short bool    `json:"short"`
	Once  bool    `json:"once"`
	Mod   bool    `json:"mod"`
	Src   string  `json:"src"`
	D     []int   `json:"d"`
	From  int     `json:"from"`
	To    int     `json:"to"`
	Cut   int     `json:"cut"`
	Last  int     `json:"last"`
	Fl    [][]int `json:"fl"`
	En    string  `json:"en"`
	Ch    []int   `json:"ch"`
	With  bool    `json:"with"`
	Meas  bool    `json:"meas"`
	Max   int     `json:"max"`
	S     []int   `json:"s"`
	Form  string  `json:"form"`
	A     []int   `json:"a"`
	N     int     `json:"n"`
	H     int     `json:"h"`
	Ni    bool    `json:"ni"`
	Er    int     `json:"er"`
	Rk    string  `json:"rk"`
	Wk    string  `json:"wk"`
	Parts []Args  `json:"parts"`
	G     int     `json:"gr"`
	Nm    []int   `json:"nm"`
	V0    VN      `json:"v0"`
}

// observation
type Obs map[string]interface{}

var lastEvent int64 // unix nanos

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: driver SCRIPT OUT FROM [DEADLINE_S]")
		os.Exit(2)
	}
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	from, _ := strconv.Atoi(os.Args[3])
	out, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	setZone("")
	atomic.StoreInt64(&lastEvent, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Now().UnixNano()-atomic.LoadInt64(&lastEvent) > int64(hangSeconds)*1e9 {
				fmt.Fprintln(os.Stderr, "driver: event does not end")
				os.Exit(77)
			}
		}
	}()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for n := 0; sc.Scan(); n++ {
		if n < from {
			continue
		}
		var ses struct {
			Ev []raw `json:"ev"`
		}
		if err := json.Unmarshal(sc.Bytes(), &ses); err != nil {
			fmt.Fprintln(os.Stderr, "driver: bad script:", err)
			os.Exit(2)
		}
		s := newSession()
		for i, ev := range ses.Ev {
			fmt.Fprintf(w, "{\"s\":%d,\"i\":%d}\n", n, i)
			w.Flush()
			atomic.StoreInt64(&lastEvent, time.Now().UnixNano())
			o := s.exec(ev)
			b, err := json.Marshal(o)
			if err != nil {
				fmt.Fprintln(os.Stderr, "driver: cannot log:", err)
				os.Exit(2)
			}
			ev["o"] = b
			b, _ = json.Marshal(ev)
			fmt.Fprintf(w, "{\"s\":%d,\"i\":%d,\"e\":%s}\n", n, i, b)
			if o["out"] != "ok" && o["out"] != "err" {
				break
			}
		}
	}
	if sc.Err() != nil {
		fmt.Fprintln(os.Stderr, "driver:", sc.Err())
		os.Exit(2)
	}
	w.Flush()
}
