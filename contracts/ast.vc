### The mutually recursive top level newtypes cannot be checked for well-foundedness by the verifier:
### they are opaque here.
@fingerprint attr ast::TopLevelCommand = #[verifier::external_body] #[verifier::accept_recursive_types(T)]
@fingerprint attr ast::AtomicTopLevelCommand = #[verifier::external_body] #[verifier::accept_recursive_types(T)]
@fingerprint attr ast::TopLevelWord = #[verifier::external_body] #[verifier::accept_recursive_types(T)]
@fingerprint attr ast::AtomicTopLevelWord = #[verifier::external_body] #[verifier::accept_recursive_types(T)]
