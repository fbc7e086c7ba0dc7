package bit

type Storage interface {
}
