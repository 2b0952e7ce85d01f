package hio

import (
	"errors"
	"io"
	"time"

	gio "gotor/io"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// stream feeds chunks of the chosen sizes, made of arbitrary bytes.
func stream(c *models.Conn, sizes []int) []byte {
	var all []byte
	for _, n := range sizes {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(len(all) + i + 1)
		}
		b[0] = vsym.Byte("byte")
		all = append(all, b...)
		c.Feed(b)
	}
	return all
}

var errCut = errors.New("connection was cut")

// lastConn gives its last data together with the error, as a Reader may.
type lastConn struct {
	*models.Conn
	data []byte
	err  error
	step int
	end  int
}

func (c *lastConn) Read(b []byte) (int, error) {
	if c.step < c.end {
		c.step++
		n := copy(b, c.data)
		c.data = c.data[n:]
		if len(c.data) == 0 {
			return n, c.err
		}
		return n, nil
	}
	return 0, c.err
}

// consume takes everything the loop delivers until it reports an error.
func consume(rl *gio.ReadLoop, bufSize int) ([]byte, error) {
	var got []byte
	for {
		select {
		case b := <-rl.ReadData():
			vsym.Assert(len(b) > 0 && len(b) <= bufSize, "a delivery is empty or larger than the buffer")
			cp := append([]byte(nil), b...)
			vsym.Yield() // the loop must not go on before it is told
			vsym.Assert(same(cp, b), "the buffer is overwritten before the consumer is ready")
			got = append(got, b...)
			rl.Ready()
		case e := <-rl.ReadError():
			return got, e
		}
	}
}

// C32_Deliver: data, then the end of the stream or an error.
//
//gosym:bounds 0-3 chunks of 1 or 5 bytes (one arbitrary each), a buffer of 1, 3 or 8 bytes, then end of stream or an error (possibly with the last data), every interleaving of reader and consumer with up to 3 (thorough 4) preemptions at any shared access, lock or channel operation
//gosym:race
//gosym:stress 50
//gosym:cpu 250 2500
//gosym:paths 400000 4000000
func C32_Deliver() {
	size := []int{1, 3, 8}[vsym.Choose("bufsize", 3)]
	conn := models.NewConn()
	var sizes []int
	for n := vsym.Choose("chunks", 4); n > 0; n-- {
		sizes = append(sizes, []int{1, 5}[vsym.Choose("chunk", 2)])
	}
	end := []error{io.EOF, errCut}[vsym.Choose("end", 2)]
	all := stream(conn, sizes)
	if end == io.EOF {
		conn.FeedEOF()
	} else {
		conn.FeedError(end)
	}
	rl := gio.NewReadLoop(int64(size), conn, time.Minute)
	vsym.Races()
	bound := 3
	if vsym.Thorough() {
		bound = 4
	}
	vsym.Explore(bound)
	go rl.Run()
	got, e := consume(rl, size)
	vsym.Sequential()
	vsym.Assert(e == end, "the end of the stream is not reported as it came")
	vsym.Assert(same(got, all), "the consumer does not get exactly what was received, in order")
	rl.Finish()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "the loop does not end")
}

// C32_LastData: an error that comes with the last data.
//
//gosym:bounds 1-4 arbitrary bytes in one or more reads, with a buffer of 1, 3 or 8 bytes, the last read also giving an error
//gosym:race
//gosym:stress 50
func C32_LastData() {
	size := []int{1, 3, 8}[vsym.Choose("bufsize", 3)]
	data := vsym.Bytes("data", 1+vsym.Choose("len", 4))
	c := &lastConn{Conn: models.NewConn(), data: data, err: errCut, end: 100}
	rl := gio.NewReadLoop(int64(size), c, time.Minute)
	vsym.Races()
	vsym.Explore(1)
	go rl.Run()
	got, e := consume(rl, size)
	vsym.Sequential()
	vsym.Assert(e == errCut, "the error is not reported as it came")
	vsym.Assert(same(got, data), "data that comes with an error is lost")
	rl.Finish()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "the loop does not end")
}

// C32_Finish: finishing at any time ends the loop, also more than once.
//
//gosym:bounds 0-3 chunks, 0-2 of them taken, possibly without saying ready for the last one; then one or two Finish calls (at once or one after the other); the connection idle, at its end, or closed; every interleaving with up to 2 (thorough 3) preemptions
//gosym:race
//gosym:stress 50
//gosym:cpu 250 2500
//gosym:paths 60000 600000
func C32_Finish() {
	conn := models.NewConn()
	var sizes []int
	for n := vsym.Choose("chunks", 4); n > 0; n-- {
		sizes = append(sizes, 2)
	}
	all := stream(conn, sizes)
	switch vsym.Choose("then", 3) {
	case 1:
		conn.FeedEOF()
	case 2:
		conn.FeedError(errCut)
	}
	rl := gio.NewReadLoop(4, conn, time.Minute)
	take := vsym.Choose("take", 3)
	last := vsym.Bool("ready")
	vsym.Races()
	bound := 2
	if vsym.Thorough() {
		bound = 3
	}
	vsym.Explore(bound)
	go rl.Run()
	var got []byte
	for i := 0; i < take && i < len(sizes); i++ {
		b := <-rl.ReadData()
		got = append(got, b...)
		if last || i+1 < take {
			rl.Ready()
		}
	}
	vsym.Assert(same(got, all[:len(got)]), "the consumer does not get what was received, in order")
	switch vsym.Choose("finish", 4) {
	case 0:
		rl.Finish()
	case 1:
		rl.Finish()
		rl.Finish()
	case 2:
		go rl.Finish()
		rl.Finish()
	case 3:
		conn.Close()
		rl.Finish()
	}
	vsym.Sequential()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "the loop goes on after Finish")
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
}

// C32_Timeout: a connection that stays silent for the timeout.
//
//gosym:bounds a timeout of 1.5 s, 1-3 chunks that come 0, 0.4, 1 or 2 s after the one before
//gosym:loose
//gosym:stress 1
//gosym:native-ms 30000
//gosym:cover late
func C32_Timeout() {
	conn := models.NewConn()
	conn.Expire = true
	rl := gio.NewReadLoop(4, conn, 1500*time.Millisecond)
	last := time.Now() // when the loop last started to wait
	go rl.Run()
	vsym.Settle()
	gaps := []int64{0, 400e6, 1000e6, 2000e6}
	late := false
	for n := 1 + vsym.Choose("chunks", 3); n > 0 && !late; n-- {
		g := gaps[vsym.Choose("gap", 4)]
		vsym.Advance(g)
		vsym.Settle()
		late = g > 1500e6
		if !late {
			conn.Feed([]byte{1, 2})
			b := <-rl.ReadData()
			vsym.Assert(same(b, []byte{1, 2}), "the consumer does not get what was received")
			last = time.Now()
			rl.Ready()
			vsym.Settle()
		}
	}
	if late {
		vsym.Cover("late")
		select {
		case e := <-rl.ReadError():
			vsym.Assert(e != nil, "no error is reported for a silent connection")
		default:
			vsym.Assert(false, "a connection that is silent for the timeout is not reported")
		}
	} else {
		select {
		case <-rl.ReadError():
			vsym.Assert(false, "an error is reported before the timeout")
		default:
		}
		e := <-rl.ReadError()
		d := time.Since(last)
		vsym.Assert(e != nil && d > 1200*time.Millisecond && d < 2500*time.Millisecond, "a silent connection is not reported at the timeout")
	}
	rl.Finish()
	vsym.Settle()
	vsym.Assert(vsym.Alive() == 0, "the loop goes on after Finish")
}
