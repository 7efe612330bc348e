//@ include prelude
verus! {
use std::rc::Rc;
use std::sync::Arc;
// What the executor answers to a task handed over.  A spawner behind a pointer is the same executor.
pub struct SpawnError { pub x: bool }
#[verifier::external_body]
pub struct FutureObj { x: PhantomData<u8> }
#[verifier::external_body]
pub struct LocalFutureObj { x: PhantomData<u8> }
pub trait Spawn {
    spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError>;
    spec fn st(&self) -> Result<(), SpawnError>;
    fn spawn_obj(&self, future: FutureObj) -> (r: Result<(), SpawnError>) ensures r == self.takes(future);
    fn status(&self) -> (r: Result<(), SpawnError>) ensures r == self.st();
}
pub trait LocalSpawn {
    spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError>;
    spec fn st_l(&self) -> Result<(), SpawnError>;
    fn spawn_local_obj(&self, future: LocalFutureObj) -> (r: Result<(), SpawnError>) ensures r == self.takes_l(future);
    fn status_local(&self) -> (r: Result<(), SpawnError>) ensures r == self.st_l();
}
//@ substall FutureObj<'static, ()> =>> FutureObj
//@ substall LocalFutureObj<'static, ()> =>> LocalFutureObj
//@ file futures-task/src/spawn.rs
//@ impl Spawn for &Sp
//@ header impl<Sp: Spawn> Spawn for &Sp
    open spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError> { (**self).takes(f) }
    open spec fn st(&self) -> Result<(), SpawnError> { (**self).st() }
//@ fn spawn_obj -> r
//@ endfn
//@ fn status -> r
//@ endfn
//@ endimpl
//@ impl LocalSpawn for &Sp
//@ header impl<Sp: LocalSpawn> LocalSpawn for &Sp
    open spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError> { (**self).takes_l(f) }
    open spec fn st_l(&self) -> Result<(), SpawnError> { (**self).st_l() }
//@ fn spawn_local_obj -> r
//@ endfn
//@ fn status_local -> r
//@ endfn
//@ endimpl
//@ impl Spawn for &mut Sp
//@ header impl<Sp: Spawn> Spawn for &mut Sp
    open spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError> { (**self).takes(f) }
    open spec fn st(&self) -> Result<(), SpawnError> { (**self).st() }
//@ fn spawn_obj -> r
//@ endfn
//@ fn status -> r
//@ endfn
//@ endimpl
//@ impl LocalSpawn for &mut Sp
//@ header impl<Sp: LocalSpawn> LocalSpawn for &mut Sp
    open spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError> { (**self).takes_l(f) }
    open spec fn st_l(&self) -> Result<(), SpawnError> { (**self).st_l() }
//@ fn spawn_local_obj -> r
//@ endfn
//@ fn status_local -> r
//@ endfn
//@ endimpl
//@ impl Spawn for Box<Sp>
//@ header impl<Sp: Spawn> Spawn for Box<Sp>
    open spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError> { (**self).takes(f) }
    open spec fn st(&self) -> Result<(), SpawnError> { (**self).st() }
//@ fn spawn_obj -> r
//@ endfn
//@ fn status -> r
//@ endfn
//@ endimpl
//@ impl LocalSpawn for Box<Sp>
//@ header impl<Sp: LocalSpawn> LocalSpawn for Box<Sp>
    open spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError> { (**self).takes_l(f) }
    open spec fn st_l(&self) -> Result<(), SpawnError> { (**self).st_l() }
//@ fn spawn_local_obj -> r
//@ endfn
//@ fn status_local -> r
//@ endfn
//@ endimpl
//@ impl Spawn for Rc<Sp>
//@ header impl<Sp: Spawn> Spawn for Rc<Sp>
    open spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError> { (**self).takes(f) }
    open spec fn st(&self) -> Result<(), SpawnError> { (**self).st() }
//@ fn spawn_obj -> r
//@ endfn
//@ fn status -> r
//@ endfn
//@ endimpl
//@ impl LocalSpawn for Rc<Sp>
//@ header impl<Sp: LocalSpawn> LocalSpawn for Rc<Sp>
    open spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError> { (**self).takes_l(f) }
    open spec fn st_l(&self) -> Result<(), SpawnError> { (**self).st_l() }
//@ fn spawn_local_obj -> r
//@ endfn
//@ fn status_local -> r
//@ endfn
//@ endimpl
//@ impl Spawn for alloc::sync::Arc<Sp>
//@ header impl<Sp: Spawn> Spawn for Arc<Sp>
    open spec fn takes(&self, f: FutureObj) -> Result<(), SpawnError> { (**self).takes(f) }
    open spec fn st(&self) -> Result<(), SpawnError> { (**self).st() }
//@ fn spawn_obj -> r
//@ endfn
//@ fn status -> r
//@ endfn
//@ endimpl
//@ impl LocalSpawn for alloc::sync::Arc<Sp>
//@ header impl<Sp: LocalSpawn> LocalSpawn for Arc<Sp>
    open spec fn takes_l(&self, f: LocalFutureObj) -> Result<(), SpawnError> { (**self).takes_l(f) }
    open spec fn st_l(&self) -> Result<(), SpawnError> { (**self).st_l() }
//@ fn spawn_local_obj -> r
//@ endfn
//@ fn status_local -> r
//@ endfn
//@ endimpl
}
