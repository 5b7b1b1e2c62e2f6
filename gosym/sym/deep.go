package sym

import (
	"reflect"

	"google.golang.org/protobuf/proto"
)

func deepEqual(a, b any) bool { return reflect.DeepEqual(a, b) }

// ProtoEqual compares two messages field by field (presence of sub-messages and
// oneof alternatives included) without forking the path under gosym.
func ProtoEqual(a, b proto.Message) bool { return proto.Equal(a, b) }
