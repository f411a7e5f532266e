use i18n_lexer::{DataProvider, IcuDataProvider};
use std::cell::RefCell;
use std::path::PathBuf;
// the counted reference and the cell the crates use in this build
#[cfg(not(feature = "sync"))]
pub use std::rc::Rc;
#[cfg(feature = "sync")]
pub use std::sync::Arc as Rc;
#[cfg(not(feature = "sync"))]
pub type Shared<T> = RefCell<T>;
#[cfg(feature = "sync")]
#[derive(Default)]
pub struct Shared<T>(std::sync::RwLock<T>);
#[cfg(feature = "sync")]
impl<T> Shared<T> {
    pub fn borrow(&self) -> std::sync::RwLockReadGuard<'_, T> { self.0.read().unwrap_or_else(|e| e.into_inner()) }
    pub fn borrow_mut(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.0.write().unwrap_or_else(|e| e.into_inner()) }
}
thread_local! {
    static ICU: RefCell<Option<Rc<IcuDataProvider>>> = const { RefCell::new(None) };
}
pub fn icu() -> Rc<IcuDataProvider> {
    ICU.with(|c| c.borrow_mut().get_or_insert_with(|| Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap())).clone())
}
/// scratch directory of this process; everything the harness writes to disk is below it
pub fn scratch() -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("vp-harness-{}", std::process::id()))
}
pub fn cleanup() {
    let d = scratch();
    if d.is_dir() { let _ = std::fs::remove_dir_all(d); }
}
