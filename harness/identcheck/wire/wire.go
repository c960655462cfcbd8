// Package wire is what two simulated processes share: names, definitions of
// tables, and a store, without the types of either of them.
package wire

import "context"

// Name is an identifier by its text.
type Name struct {
	Text string `json:"text"`
	Kw   bool   `json:"kw,omitempty"` // the keyword, not the quoted name
	Res  bool   `json:"res,omitempty"`
}

type ColType struct {
	Type    int    `json:"type"`
	Size    uint32 `json:"size"`
	Fixed   bool   `json:"fixed,omitempty"`
	NotNull bool   `json:"notnull,omitempty"`
}

type Index struct {
	Name Name    `json:"name"`
	Key  []int32 `json:"key"`
}

// Def is the definition of a table.
type Def struct {
	Version uint32    `json:"version"`
	Names   []Name    `json:"names"`
	Types   []ColType `json:"types"`
	Key     []int32   `json:"key"`
	Indexes []Index   `json:"indexes,omitempty"`
}

type TableName [3]Name

type Store interface {
	SetupColumns(names []Name, types []ColType, key []int32) ([]Name, []ColType, []int32)
	Begin() Tx
}

type Tx interface {
	OpenTable(ctx context.Context, tid uint32, tn TableName, names []Name, types []ColType, key []int32) (Table, error)
	CreateTable(ctx context.Context, tid uint32, tn TableName, names []Name, types []ColType, key []int32) error
	DropTable(ctx context.Context, tid uint32) error
	Commit(ctx context.Context) error
	Rollback() error
	NextStmt()
}

// Table has rows of nil, bool, int64, float64, string, and []byte.
type Table interface {
	Def() Def
	Rows(ctx context.Context, cols []uint32, min, max []any) (Rows, error)
	Insert(ctx context.Context, rows [][]any) error
}

type Rows interface {
	Next(ctx context.Context) ([]any, error)
	Update(ctx context.Context, cols []uint32, vals []any) error
	Delete(ctx context.Context) error
	Close(ctx context.Context) error
}

// Engine is the catalog of a process, with names as text.
type Engine interface {
	CreateDatabase(dn Name) error
	DropDatabase(dn Name) error
	Databases() ([]Name, error)
	Begin() EngineTx
}

type EngineTx interface {
	Commit(ctx context.Context) error
	Rollback() error
	CreateSchema(ctx context.Context, dn, sn Name) error
	DropSchema(ctx context.Context, dn, sn Name) error
	Schemas(ctx context.Context, dn Name) ([]Name, error)
	CreateTable(ctx context.Context, tn TableName, names []Name, types []ColType, key []int32) error
	DropTable(ctx context.Context, tn TableName) error
	Tables(ctx context.Context, dn, sn Name) ([]Name, error)
	Table(ctx context.Context, tn TableName) (Def, TableName, uint32, error)
}
