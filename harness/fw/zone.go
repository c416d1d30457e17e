package fw

import "time"

// The sandbox's local time is UTC, in which a mistaken conversion to or from
// local time would not show.
func init() { time.Local = time.FixedZone("", -(3*60+30)*60) }
