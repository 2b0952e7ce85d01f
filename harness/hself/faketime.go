package hself

import (
	"time"

	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// S04_FakeTime: clocks, timers and deadlines over minutes.
//
//gosym:bounds three timers, a ticker and a connection deadline
//gosym:faketime
func S04_FakeTime() {
	start := time.Now()
	var got []int64
	t := time.NewTicker(time.Duration(20+vsym.Choose("tick", 5)) * time.Second)
	defer t.Stop()
	after := time.After(time.Duration(31*(1+vsym.Choose("after", 3))) * time.Second)
	c := models.NewConn()
	c.Expire = true
	c.SetReadDeadline(start.Add(70 * time.Second))
	done := make(chan int64)
	go func() {
		_, e := c.Read(make([]byte, 4))
		vsym.Assert(e != nil, "no deadline")
		done <- 3
	}()
	for n := 0; n < 7; {
		select {
		case <-t.C:
			got = append(got, int64(time.Since(start)/time.Second))
			n++
		case <-after:
			got = append(got, 1000+int64(time.Since(start)/time.Second))
			n++
		case k := <-done:
			got = append(got, 1000*k+int64(time.Since(start)/time.Second))
			n++
		}
	}
	for _, g := range got {
		vsym.ObsInt("at", g)
	}
}
