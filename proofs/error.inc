#[verifier::external_body]
pub struct AnyError { x: u8 }
//@item src/error.rs :: pub enum ParseError
//@sub /std::borrow::Cow<'static, str>, Box<dyn std::error::Error \+ Send \+ Sync>/ => AnyError ## boxed error
//@end
pub fn map_err<T>(r: Result<T, InvalidString>, f: impl Fn(InvalidString) -> ParseError) -> (o: Result<T, ParseError>)
    requires forall|e: InvalidString| call_requires(f, (e,)),
    ensures r matches Ok(x) ==> o == Ok::<T, ParseError>(x), r is Err ==> o is Err,
{ match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
