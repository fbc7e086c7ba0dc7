package st

// Gate is a storage that calls Before before each access.
type Gate struct {
	Inner  Storage
	Before func()
}

func (g *Gate) Has(source uint) (bool, error) {
	g.Before()
	return g.Inner.Has(source)
}

func (g *Gate) Create() (uint, error) {
	g.Before()
	return g.Inner.Create()
}

func (g *Gate) ReadSources(target uint) ([]uint, error) {
	g.Before()
	return g.Inner.ReadSources(target)
}

func (g *Gate) ReadTargets(source uint) ([]uint, error) {
	g.Before()
	return g.Inner.ReadTargets(source)
}

func (g *Gate) SetReference(source uint, reference uint) error {
	g.Before()
	return g.Inner.SetReference(source, reference)
}

func (g *Gate) GetReference(source uint) (uint, uint, error) {
	g.Before()
	return g.Inner.GetReference(source)
}

func (g *Gate) Connect(source uint, target uint) error {
	g.Before()
	return g.Inner.Connect(source, target)
}

func (g *Gate) Disconnect(source uint, target uint) error {
	g.Before()
	return g.Inner.Disconnect(source, target)
}

func (g *Gate) Delete(source uint) error {
	g.Before()
	return g.Inner.Delete(source)
}

// Overlap runs two clients, each in a goroutine of its own, of which one at a
// time proceeds: the first until it is about to make access number turns[0] + 1,
// then the second until it is about to make access number turns[1] + 1 and so
// on, in turn; a client whose turn has no end, or whose counterpart has come
// to its end, runs to its end. It returns how many accesses each has made.
func Overlap(gates [2]*Gate, clients [2]func(), turns []int) [2]int {
	var wake [2]chan struct{}
	var count [2]int
	var ended [2]bool
	over := make(chan struct{})
	turn, left := 0, -1
	begin := func() {
		left = -1
		if turn < len(turns) {
			left = turns[turn]
		}
		turn++
	}
	for i := range clients {
		i := i
		wake[i] = make(chan struct{})
		gates[i].Before = func() {
			if left == 0 && !ended[1-i] {
				begin()
				wake[1-i] <- struct{}{}
				<-wake[i]
			}
			if left > 0 {
				left--
			}
			count[i]++
		}
	}
	for i := range clients {
		i := i
		go func() {
			<-wake[i]
			clients[i]()
			ended[i] = true
			if ended[1-i] {
				close(over)
				return
			}
			begin()
			wake[1-i] <- struct{}{}
		}()
	}
	begin()
	wake[0] <- struct{}{}
	<-over
	for i := range gates {
		gates[i].Before = func() {}
	}
	return count
}
