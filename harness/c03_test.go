package harness

import (
	"testing"

	"pgregory.net/rapid"
)

// faithful checks that statements of one kind mean what their text says.
func faithful(t *testing.T, weight int, gen genFunc) {
	prop(t, weight, func(t *rapid.T) {
		g := gen(t, Opt{})
		text := ""
		switch uniform(t, 3) {
		case 0:
			text = g.T.layout(t, true)
		case 1:
			text = g.T.spaced()
		default:
			text = g.T.canonical()
		}
		if chance(t, 20) {
			text += pick(t, ";", " ;", ";;", "; -- end", ";\n")
		}
		expectOne(t, text, g.M)
		note(g.Rich, text, append([]string{g.M.Kind}, g.Feats...)...)
	})
}

func TestC03_CreateTable(t *testing.T) { faithful(t, 100, genCreateTable) }
func TestC04_Insert(t *testing.T)      { faithful(t, 100, genInsert) }
func TestC05_Delete(t *testing.T)      { faithful(t, 100, genDelete) }
func TestC06_Update(t *testing.T)      { faithful(t, 100, genUpdate) }
func TestC07_Select(t *testing.T)      { faithful(t, 100, genSelect) }

func TestC08_AlterTable(t *testing.T)  { faithful(t, 100, genAlterTable) }
func TestC08_CreateIndex(t *testing.T) { faithful(t, 50, genCreateIndex) }
func TestC08_DropIndex(t *testing.T)   { faithful(t, 50, genDropIndex) }
func TestC08_DropTable(t *testing.T)   { faithful(t, 50, genDropTable) }
func TestC08_Truncate(t *testing.T)    { faithful(t, 50, genTruncate) }

func TestC09_Database(t *testing.T)    { faithful(t, 50, genDatabase) }
func TestC09_Transaction(t *testing.T) { faithful(t, 20, genTransaction) }
func TestC09_Vacuum(t *testing.T)      { faithful(t, 30, genVacuum) }
func TestC09_Copy(t *testing.T)        { faithful(t, 50, genCopy) }
