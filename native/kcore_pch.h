#include "koladata/internal/data_item.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/dtype.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/schema_utils.h"
#include "koladata/internal/uuid_object.h"
#include "arolla/mini/ops.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/container/flat_hash_map.h"
#include <random>
#include <functional>
#include <queue>
