//! Stands in for `simple_logger`: the harness's own logger is already installed.
#[derive(Default)]
pub struct SimpleLogger {
    level: Option<log::LevelFilter>,
}
impl SimpleLogger {
    pub fn new() -> Self {
        SimpleLogger { level: None }
    }
    pub fn with_level(mut self, l: log::LevelFilter) -> Self {
        self.level = Some(l);
        self
    }
    pub fn with_utc_timestamps(self) -> Self {
        self
    }
    pub fn with_local_timestamps(self) -> Self {
        self
    }
    pub fn without_timestamps(self) -> Self {
        self
    }
    pub fn with_colors(self, _: bool) -> Self {
        self
    }
    pub fn with_threads(self, _: bool) -> Self {
        self
    }
    pub fn with_module_level(self, _: &str, _: log::LevelFilter) -> Self {
        self
    }
    pub fn env(self) -> Self {
        self
    }
    pub fn init(self) -> Result<(), log::SetLoggerError> {
        log::set_max_level(self.level.unwrap_or(log::LevelFilter::Trace));
        Ok(())
    }
}
pub fn init() -> Result<(), log::SetLoggerError> {
    SimpleLogger::new().init()
}
