package main

import (
	"context"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// faultStore is a store whose calls fail when told to.
type faultStore struct {
	storage.Store
	f *faults
}

func (s *faultStore) Begin() storage.Transaction {
	return &faultTx{s.Store.Begin(), s}
}

type faultTx struct {
	storage.Transaction
	s *faultStore
}

func (t *faultTx) Store() storage.Store { return t.s }

func (t *faultTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	if err := t.s.f.fail(); err != nil {
		return nil, err
	}
	tbl, err := t.Transaction.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	if err != nil {
		return nil, err
	}
	return &faultTable{tbl, t.s.f}, nil
}

func (t *faultTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	if err := t.s.f.fail(); err != nil {
		return err
	}
	return t.Transaction.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
}

func (t *faultTx) DropTable(ctx context.Context, tid storage.TableId) error {
	if err := t.s.f.fail(); err != nil {
		return err
	}
	return t.Transaction.DropTable(ctx, tid)
}

// A commit which fails has ended the transaction.
func (t *faultTx) Commit(ctx context.Context) (err error) {
	done := false
	defer func() {
		if !done {
			t.Transaction.Rollback()
		}
	}()
	if err := t.s.f.fail(); err != nil {
		return err
	}
	done = true
	return t.Transaction.Commit(ctx)
}

type faultTable struct {
	storage.Table
	f *faults
}

func (t *faultTable) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	if err := t.f.fail(); err != nil {
		return nil, err
	}
	rows, err := t.Table.Rows(ctx, cols, minRow, maxRow, pred)
	if err != nil {
		return nil, err
	}
	return &faultRows{rows, t.f}, nil
}

func (t *faultTable) Insert(ctx context.Context, rows []types.Row) error {
	if err := t.f.fail(); err != nil {
		return err
	}
	return t.Table.Insert(ctx, rows)
}

type faultRows struct {
	storage.Rows
	f *faults
}

func (r *faultRows) Next(ctx context.Context) (types.Row, error) {
	if err := r.f.fail(); err != nil {
		return nil, err
	}
	return r.Rows.Next(ctx)
}

func (r *faultRows) Current() (storage.RowRef, error) {
	if err := r.f.fail(); err != nil {
		return nil, err
	}
	ref, err := r.Rows.Current()
	if err != nil {
		return nil, err
	}
	return &faultRef{ref, r.f}, nil
}

// The rows are closed even if closing them fails.
func (r *faultRows) Close(ctx context.Context) error {
	if err := r.Rows.Close(ctx); err != nil {
		return err
	}
	return r.f.fail()
}

type faultRef struct {
	storage.RowRef
	f *faults
}

func (r *faultRef) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	if err := r.f.fail(); err != nil {
		return err
	}
	return r.RowRef.Update(ctx, cols, vals)
}

func (r *faultRef) Delete(ctx context.Context) error {
	if err := r.f.fail(); err != nil {
		return err
	}
	return r.RowRef.Delete(ctx)
}
