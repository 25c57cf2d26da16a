// Helpers shared by harnesses.
#[allow(dead_code)]
mod cm {
    use super::*;
    pub fn parse(s: &str) -> Result<Expression, Error> {
        match dune::parse_script(s) {
            Ok(e) => Ok(e),
            Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(Error::SyntaxError(s.into(), e)),
            Err(nom::Err::Incomplete(_)) => Err(Error::SyntaxError(s.into(), dune::SyntaxError::InternalError)),
        }
    }
    pub fn env() -> std::mem::ManuallyDrop<Environment> {
        let mut e = Environment::default();
        binary::init(&mut e);
        std::mem::ManuallyDrop::new(e)
    }
    pub fn run(s: &str, e: &mut Environment) -> Result<Expression, Error> {
        parse(s)?.eval(e)
    }
    pub fn int(x: i64) -> Expression { Expression::Integer(x) }
    pub fn string(x: &str) -> Expression { Expression::String(x.to_string()) }
}
