//! Stand-in for the files of configuration: the job has it.
pub struct Config(serde_json::Value);
#[derive(Debug)]
pub struct ConfigError(String);
impl std::fmt::Display for ConfigError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ConfigError {}
pub struct File(());
impl From<std::path::PathBuf> for File {
    fn from(_: std::path::PathBuf) -> File {
        File(())
    }
}
impl File {
    pub fn with_name(_: &str) -> File {
        File(())
    }
}
pub struct Builder(());
impl Config {
    pub fn builder() -> Builder {
        Builder(())
    }
    pub fn try_deserialize<'de, T: serde::Deserialize<'de>>(self) -> Result<T, ConfigError> {
        T::deserialize(self.0).map_err(|e| ConfigError(e.to_string()))
    }
}
impl Builder {
    pub fn add_source<T>(self, _: T) -> Builder {
        self
    }
    pub fn build(self) -> Result<Config, ConfigError> {
        Ok(Config(world::world(|w| w.job["config"].clone())))
    }
}
