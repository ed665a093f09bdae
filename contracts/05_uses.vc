# names the crate and vstd both define
FILE reader.rs
PRELUDE
  pub use crate::types::structure::Map;
FILE writer.rs
PRELUDE
  pub use crate::types::structure::Map;
FILE encode.rs
PRELUDE
  pub use crate::types::structure::Map;
FILE tagged.rs
PRELUDE
  pub use crate::types::structure::Map;
FILE types/mod.rs
PRELUDE
  pub use crate::types::structure::Map;
FILE lib.rs
PRELUDE
  pub use crate::types::structure::Map;
