package fact

type Repository interface {
	CreateFirstStoryFact() (Aggregate, error)
	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
	AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
	AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error
}
