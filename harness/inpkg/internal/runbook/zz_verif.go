package runbook

import (
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/sys"
)

// VerifRun runs tasks as Run does once a runbook has been parsed.
func VerifRun(log sys.Logger, targets types.Targets, tasks types.Tasks) error {
	return newRunner(log, targets, tasks).run()
}
