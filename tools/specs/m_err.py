MEM='client/src/backend/memory.rs'; SRV='client/src/backend/server.rs'; CFG='client/src/request/mod.rs'; ENG='engine/src/command/error.rs'; BLD='engine/src/command/request/builder.rs'
PRS='cli/lib/src/parse.rs'; PRO='cli/lib/src/process.rs'; CID='engine/src/command/command_id.rs'; KT='engine/src/state/mod.rs'; TM='lib/timer/src/lib.rs'; MET='lib/metrics/src/lib.rs'; PS='engine/src/pubsub/mod.rs'
REQ='engine/src/command/request/mod.rs'; SES='engine/src/session/mod.rs'; RESP='engine/src/command/response/mod.rs'; RCTX='engine/src/command/response/context.rs'
M=[
('e-swap',[(ENG,'''Self::KeyNonexistent => f.write_str("the specified key does not exist")''','''Self::KeyNonexistent => f.write_str("the key wasn't specified")''')],'E01',''),
('e-field',[(MEM,'''                "the provided key type ({}) is invalid",
                number
            )),''','''                "the provided key type ({}) is invalid",
                number.count_ones()
            )),''')],'E01',''),
('e-field2',[(PRS,'''                "the map has an incomplete key-value; the last key was {}",
                key
            )),''','''                "the map has an incomplete key-value; the last key had {} bytes",
                key.len()
            )),''')],'E01',''),
('e-lost',[(SRV,'''            Self::Dispatching { reason } => f.write_fmt(format_args!(
                "server couldn't process command: {:?}",
                reason
            )),''','''            Self::Dispatching { .. } => f.write_str("server couldn't process command"),''')],'E01',''),
('e-src',[(SRV,'Self::Connecting { source } => Some(source),','Self::Connecting { .. } => None,')],'E01',''),
('e-empty',[(CFG,'Self::NoKeys => f.write_str("no keys were provided"),','Self::NoKeys => Ok(()),')],'E01',''),
('e-same',[(CFG,'Self::TooManyKeys => f.write_str("too many keys were provided"),','Self::TooManyKeys => f.write_str("no keys were provided"),')],'E01',''),
('e-fails',[(BLD,'Self::ArgumentEmpty => f.write_str("the provided argument is empty"),','Self::ArgumentEmpty => Err(core::fmt::Error),')],'E01',''),
('e-name',[(PRS,'KeyType::Float => "float",','KeyType::Float => "int",')],'E01',''),
('e-from',[(MEM,'''    fn from(source: DispatchError) -> Self {
        Self::RunningCommand { source }
    }''','''    fn from(_: DispatchError) -> Self {
        Self::RunningCommand { source: DispatchError::PreconditionFailed }
    }''')],'E01',''),
('e-from2',[(MEM,'''    fn from(source: DispatchError) -> Self {
        Self::RunningCommand { source }
    }''','''    fn from(source: DispatchError) -> Self {
        Self::Dispatching { source }
    }''')],'',''),
('e-panics',[(PRS,'''                "the argument '{}' is not a {}",
                argument,''','''                "the argument '{}' is not a {}",
                &argument[..8],''')],'E01',''),
('e-ref-write',[(SRV,'''            Self::KeyTypeInvalid { number } => f.write_fmt(format_args!(
                "the provided key type ({}) is invalid",
                number
            )),''','''            Self::KeyTypeInvalid { number } => write!(f, "the provided key type ({}) is invalid", number),''')],'','E01'),
('e-ref-parts',[(SRV,'''            Self::KeyTypeInvalid { number } => f.write_fmt(format_args!(
                "the provided key type ({}) is invalid",
                number
            )),''','''            Self::KeyTypeInvalid { number } => {
                f.write_str("the provided key type (")?;
                Display::fmt(number, f)?;
                f.write_str(") is invalid")
            }''')],'','E01'),
('e-ref-str',[(ENG,'''        match self {
            Self::ArgumentRetrieval => f.write_str("couldn't retrieve required argument"),
            Self::KeyNonexistent => f.write_str("the specified key does not exist"),
            Self::KeyTypeDifferent => f.write_str("the key has a different type than required"),
            Self::KeyTypeInvalid => {
                f.write_str("the specified key type is not supported by the command")
            }
            Self::KeyTypeRequired => f.write_str("a key type is required to be specified"),
            Self::KeyTypeUnexpected => f.write_str("didn't expect a specified request key type"),
            Self::KeyUnspecified => f.write_str("the key wasn't specified"),
            Self::PreconditionFailed => f.write_str("a precondition for the command failed"),
        }''','''        let s = match self {
            Self::ArgumentRetrieval => "couldn't retrieve required argument",
            Self::KeyNonexistent => "the specified key does not exist",
            Self::KeyTypeDifferent => "the key has a different type than required",
            Self::KeyTypeInvalid => "the specified key type is not supported by the command",
            Self::KeyTypeRequired => "a key type is required to be specified",
            Self::KeyTypeUnexpected => "didn't expect a specified request key type",
            Self::KeyUnspecified => "the key wasn't specified",
            Self::PreconditionFailed => "a precondition for the command failed",
        };
        f.pad(s)''')],'','E01'),
('e-ref-delegate',[(SRV,'''            Self::BuildingRequest { source } => {
                f.write_fmt(format_args!("failed to build request: {:?}", source))
            }''','''            Self::BuildingRequest { source } => {
                f.write_str("failed to build request: ")?;
                source.fmt(f)
            }''')],'','E01'),
('e-ref-source',[(SRV,'''            Self::ReadingMessage { source } => Some(source),
            Self::WritingMessage { source } => Some(source),''','''            Self::ReadingMessage { source } | Self::WritingMessage { source } => Some(source),''')],'','E01'),
('e-ref-string',[(PRS,'''                f.write_fmt(format_args!("the command '{}' is invalid", provided_name))''','''                let text = format!("the command '{}' is invalid", provided_name);
                f.write_str(&text)''')],'','E01'),
('e-ref-table',[(CFG,'''        match self {
            Self::NoKeys => f.write_str("no keys were provided"),
            Self::TooManyKeys => f.write_str("too many keys were provided"),
        }''','''        let n = if let Self::NoKeys = self { "no" } else { "too many" };
        write!(f, "{} keys were provided", n)''')],'','E01'),
('w-show',[(CID,'''    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        f.write_str(self.name())
    }''','''    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        f.write_str(self.name().split(':').next().unwrap_or(""))
    }''')],'W01',''),
('w-show2',[(CID,'''        f.write_str(self.name())
    }''','''        match self {
            Self::IncrementBy => f.write_str("increment"),
            _ => f.write_str(self.name()),
        }
    }''')],'W01',''),
('w-try',[(CID,'''    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        Self::from_str(s)
    }''','''    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        Self::from_str(s.trim())
    }''')],'W01',''),
('w-ref-show',[(CID,'''        f.write_str(self.name())
    }''','''        write!(f, "{}", self.name())
    }''')],'','W01'),
('w-ref-try',[(CID,'''    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        Self::from_str(s)
    }''','''    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        s.parse()
    }''')],'','W01'),
('w-bref',[(BLD,'self.key_type.as_ref()','self.key_type.as_ref().filter(|_| self.argument_count > 0)')],'W02',''),
('v-eq',[(KT,'#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]\n#[repr(u8)]\npub enum KeyType','''impl PartialEq for KeyType {
    fn eq(&self, other: &Self) -> bool {
        (*self as u8) & 3 == (*other as u8) & 3
    }
}

#[allow(clippy::derive_hash_xor_eq)]
#[derive(Clone, Copy, Debug, Eq, Hash)]
#[repr(u8)]
pub enum KeyType''')],'V02',''),
('v-eq-ok',[(KT,'#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]\n#[repr(u8)]\npub enum KeyType','''impl PartialEq for KeyType {
    fn eq(&self, other: &Self) -> bool {
        *self as u8 == *other as u8
    }
}

#[allow(clippy::derive_hash_xor_eq)]
#[derive(Clone, Copy, Debug, Eq, Hash)]
#[repr(u8)]
pub enum KeyType''')],'','V02'),
('v-timer',[(TM,'#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Timer','''impl PartialEq for Timer {
    fn eq(&self, other: &Self) -> bool {
        self.duration() == other.duration()
    }
}

#[derive(Clone, Debug, Default, Eq)]
pub struct Timer''')],'V02',''),
('v-timer-clone',[(TM,'#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Timer','''impl Clone for Timer {
    fn clone(&self) -> Self {
        Self {
            start: self.start,
            stop: None,
        }
    }
}

#[derive(Debug, Default, Eq, PartialEq)]
pub struct Timer''')],'V02',''),
('v-timer-ok',[(TM,'#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Timer','''impl Clone for Timer {
    fn clone(&self) -> Self {
        let Self { start, stop } = self;
        Self {
            start: start.clone(),
            stop: *stop,
        }
    }
}

impl PartialEq for Timer {
    fn eq(&self, other: &Self) -> bool {
        if self.stop != other.stop {
            return false;
        }
        self.start.eq(&other.start)
    }
}

#[derive(Debug, Default, Eq)]
pub struct Timer''')],'','V02'),
('v-builder',[(BLD,'#[derive(Clone, Debug, Eq, PartialEq)]\npub struct RequestBuilder','''impl PartialEq for RequestBuilder {
    fn eq(&self, other: &Self) -> bool {
        self.buf == other.buf && self.command_id == other.command_id && self.argument_count == other.argument_count && self.positions.len() == other.positions.len()
    }
}

#[derive(Clone, Debug, Eq)]
pub struct RequestBuilder''')],'V02',''),
('v-builder-clone',[(BLD,'#[derive(Clone, Debug, Eq, PartialEq)]\npub struct RequestBuilder','''impl Clone for RequestBuilder {
    fn clone(&self) -> Self {
        Self {
            argument_count: self.argument_count,
            buf: self.buf.clone(),
            command_id: self.command_id,
            key_type: None,
            positions: self.positions.clone(),
        }
    }
}

#[derive(Debug, Eq, PartialEq)]
pub struct RequestBuilder''')],'V02',''),
('v-sess',[(SES,'#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct SessionId(u32);','''#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, PartialOrd)]
pub struct SessionId(u32);

impl Ord for SessionId {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (self.0 as u16).cmp(&(other.0 as u16))
    }
}''')],'V02',''),
('v-sess-ok',[(SES,'#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct SessionId(u32);','''#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub struct SessionId(u32);

impl PartialOrd for SessionId {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for SessionId {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.0.cmp(&other.0)
    }
}''')],'','V02'),
('p-ends',[(PS,'''        let (tx, rx) = shared::unbuffered_channel();

        Self { rx, tx }''','''        let (tx, _) = shared::unbuffered_channel();
        let (_, rx) = shared::unbuffered_channel();

        Self { rx, tx }''')],'P01',''),
('p-close',[(PS,'''    pub fn close(&self) {
        self.tx.close();
    }''','''    pub fn close(&self) {
        self.sender();
    }''')],'P01',''),
('p-ask',[(PS,'''        self.rx.clone()''','''        self.rx.close();
        self.rx.clone()''')],'P01',''),
('p-ref',[(PS,'''        self.tx.close();''','''        self.rx.close();''')],'','P01'),
('p-ref2',[(PS,'''        let (tx, rx) = shared::unbuffered_channel();

        Self { rx, tx }''','''        let ends = shared::unbuffered_channel();

        Self { rx: ends.1, tx: ends.0 }''')],'','P01'),
]
