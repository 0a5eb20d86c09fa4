//! Links the crate without the standard library: a panic handler of its own (two of them are an
//! error) and, unless `alloc` was asked for, no allocator (needing one is an error).
#![no_std]
use ublox::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[cfg(feature = "alloc")]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    struct None;
    unsafe impl GlobalAlloc for None {
        unsafe fn alloc(&self, _: Layout) -> *mut u8 {
            core::ptr::null_mut()
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
    }
    #[global_allocator]
    static HEAP: None = None;
}

struct Out([u8; 64], usize);
impl MemWriter for Out {
    type Error = ();
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<()>> {
        if self.1 + len > 64 {
            return Err(MemWriterError::NotEnoughMem);
        }
        Ok(())
    }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<()>> {
        self.0[self.1..self.1 + b.len()].copy_from_slice(b);
        self.1 += b.len();
        Ok(())
    }
}

#[no_mangle]
pub extern "C" fn entry(x: *const u8, n: usize) -> usize {
    let s = unsafe { core::slice::from_raw_parts(x, n) };
    let mut mem = [0u8; 512];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut k = 0;
    let mut it = p.consume(s);
    while let Some(r) = it.next() {
        k += 1;
        match r {
            Ok(PacketRef::NavPvt(v)) => k += (Position::from(&v).lon + Velocity::from(&v).speed) as usize,
            Ok(q) => k += q.class_and_msg_id().0 as usize,
            Err(_) => k += 100,
        }
    }
    let mut o = Out([0; 64], 0);
    let b = CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>([1; 6]);
    k + b.create_packet(&mut o).is_ok() as usize + o.1
}
