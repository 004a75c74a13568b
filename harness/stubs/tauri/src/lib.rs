//! tauri's window: every event is accepted.
#[derive(Clone)]
pub struct Window(());

#[derive(Debug)]
pub struct Error(());

impl Window {
    pub fn new() -> Window {
        Window(())
    }
    pub fn emit<S: serde::Serialize + Clone>(&self, _event: &str, _payload: S) -> Result<(), Error> {
        Ok(())
    }
}
