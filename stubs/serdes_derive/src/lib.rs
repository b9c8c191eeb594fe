use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (ser, de) = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let ids: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                (
                    quote! { #( serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* },
                    quote! { Self { #( #ids: serdes::ExpSerde::deserialize_from(&mut reader)?, )* } },
                )
            }
            Fields::Unnamed(f) => {
                let ids: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
                let n = ids.iter().map(|_| quote!(serdes::ExpSerde::deserialize_from(&mut reader)?));
                (
                    quote! { #( serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* },
                    quote! { Self( #( #n, )* ) },
                )
            }
            Fields::Unit => (quote! {}, quote! { Self }),
        },
        Data::Enum(e) => {
            for v in &e.variants {
                assert!(matches!(v.fields, Fields::Unit), "unit variants only");
            }
            let ids: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let ns: Vec<u8> = (0..ids.len() as u8).collect();
            (
                quote! { let t: u8 = match self { #( Self::#ids => #ns, )* }; serdes::ExpSerde::serialize_into(&t, &mut writer)?; },
                quote! { match <u8 as serdes::ExpSerde>::deserialize_from(&mut reader)? { #( #ns => Self::#ids, )* _ => return Err(serdes::SerdeError::DeserializeError) } },
            )
        }
        _ => panic!("unions unsupported"),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize_into<WriterT: std::io::Write>(&self, mut writer: WriterT) -> serdes::SerdeResult<()> {
                #ser
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_from<ReaderT: std::io::Read>(mut reader: ReaderT) -> serdes::SerdeResult<Self> {
                Ok(#de)
            }
        }
    }
    .into()
}
