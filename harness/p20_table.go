package main

// claimTable lists the claims of each object together with the Go field that gives access to it; it is fixed here,
// independently of the struct tags of the code under verification
var claimTable = map[string][][3]string{
	"EntityStatementPayload": {
		{"iss", "Issuer", "string"},
		{"sub", "Subject", "string"},
		{"iat", "IssuedAt", "unixtime.Unixtime"},
		{"exp", "ExpiresAt", "unixtime.Unixtime"},
		{"jwks", "JWKS", "jwks.JWKS"},
		{"aud", "Audience", "string"},
		{"authority_hints", "AuthorityHints", "[]string"},
		{"metadata", "Metadata", "*Metadata"},
		{"metadata_policy", "MetadataPolicy", "*MetadataPolicies"},
		{"constraints", "Constraints", "*ConstraintSpecification"},
		{"crit", "CriticalExtensions", "[]string"},
		{"metadata_policy_crit", "MetadataPolicyCrit", "[]PolicyOperatorName"},
		{"trust_marks", "TrustMarks", "TrustMarkInfos"},
		{"trust_mark_issuers", "TrustMarkIssuers", "AllowedTrustMarkIssuers"},
		{"trust_mark_owners", "TrustMarkOwners", "TrustMarkOwners"},
		{"source_endpoint", "SourceEndpoint", "string"},
		{"trust_anchor_id", "TrustAnchorID", "string"},
	},
	"FederationEntityMetadata": {
		{"federation_fetch_endpoint", "FederationFetchEndpoint", "string"},
		{"federation_list_endpoint", "FederationListEndpoint", "string"},
		{"federation_resolve_endpoint", "FederationResolveEndpoint", "string"},
		{"federation_trust_mark_status_endpoint", "FederationTrustMarkStatusEndpoint", "string"},
		{"federation_trust_mark_list_endpoint", "FederationTrustMarkListEndpoint", "string"},
		{"federation_trust_mark_endpoint", "FederationTrustMarkEndpoint", "string"},
		{"federation_historical_keys_endpoint", "FederationHistoricalLKeysEndpoint", "string"},
		{"display_name", "DisplayName", "string"},
		{"description", "Description", "string"},
		{"keywords", "Keywords", "[]string"},
		{"contacts", "Contacts", "[]string"},
		{"logo_uri", "LogoURI", "string"},
		{"policy_uri", "PolicyURI", "string"},
		{"information_uri", "InformationURI", "string"},
		{"organization_name", "OrganizationName", "string"},
		{"organization_uri", "OrganizationURI", "string"},
	},
	"OpenIDRelyingPartyMetadata": {
		{"scope", "Scope", "string"},
		{"redirect_uris", "RedirectURIS", "[]string"},
		{"response_types", "ResponseTypes", "[]string"},
		{"grant_types", "GrantTypes", "[]string"},
		{"application_type", "ApplicationType", "string"},
		{"contacts", "Contacts", "[]string"},
		{"client_name", "ClientName", "string"},
		{"logo_uri", "LogoURI", "string"},
		{"client_uri", "ClientURI", "string"},
		{"policy_uri", "PolicyURI", "string"},
		{"tos_uri", "TOSURI", "string"},
		{"sector_identifier_uri", "SectorIdentifierURI", "string"},
		{"subject_type", "SubjectType", "string"},
		{"id_token_signed_response_alg", "IDTokenSignedResponseAlg", "string"},
		{"id_token_encrypted_response_alg", "IDTokenEncryptedResponseAlg", "string"},
		{"id_token_encrypted_response_enc", "IDTokenEncryptedResponseEnc", "string"},
		{"userinfo_signed_response_alg", "UserinfoSignedResponseAlg", "string"},
		{"userinfo_encrypted_response_alg", "UserinfoEncryptedResponseAlg", "string"},
		{"userinfo_encrypted_response_enc", "UserinfoEncryptedResponseEnc", "string"},
		{"request_signed_response_alg", "RequestSignedResponseAlg", "string"},
		{"request_encrypted_response_alg", "RequestEncryptedResponseAlg", "string"},
		{"request_encrypted_response_enc", "RequestEncryptedResponseEnc", "string"},
		{"token_endpoint_auth_method", "TokenEndpointAuthMethod", "string"},
		{"token_endpoint_auth_signing_alg", "TokenEndpointAuthSigningAlg", "string"},
		{"default_max_age", "DefaultMaxAge", "int64"},
		{"require_auth_time", "RequireAuthTime", "bool"},
		{"default_acr_values", "DefaultACRValues", "[]string"},
		{"initiate_login_uri", "InitiateLoginURI", "string"},
		{"request_uris", "RequestURIs", "[]string"},
		{"software_id", "SoftwareID", "string"},
		{"software_version", "SoftwareVersion", "string"},
		{"client_id", "ClientID", "string"},
		{"client_secret", "ClientSecret", "string"},
		{"client_id_issued_at", "ClientIDIssuedAt", "int64"},
		{"client_secret_expires_at", "ClientSecretExpiresAt", "int64"},
		{"registration_access_token", "RegistrationAccessToken", "string"},
		{"registration_client_uri", "RegistrationClientURI", "string"},
		{"claims_redirect_uris", "ClaimsRedirectURIs", "[]string"},
		{"nfv_token_signed_response_alg", "NFVTokenSignedResponseAlg", "string"},
		{"nfv_token_encrypted_response_alg", "NFVTokenEncryptedResponseAlg", "string"},
		{"nfv_token_encrypted_response_enc", "NFVTokenEncryptedResponseEnc", "string"},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "bool"},
		{"tls_client_auth_subject_dn", "TLSClientAuthSubjectDN", "string"},
		{"tls_client_auth_san_dns", "TLSClientAuthSANDNS", "string"},
		{"tls_client_auth_san_uri", "TLSClientAuthSANURI", "string"},
		{"tls_client_auth_san_ip", "TLSClientAuthSANIP", "string"},
		{"tls_client_auth_san_email", "TLSClientAuthSANEMAIL", "string"},
		{"require_signed_request_object", "RequireSignedRequestObject", "bool"},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "bool"},
		{"introspection_signed_response_alg", "IntrospectionSignedResponseAlg", "string"},
		{"introspection_encrypted_response_alg", "IntrospectionEncryptedResponseAlg", "string"},
		{"introspection_encrypted_response_enc", "IntrospectionEncryptedResponseEnc", "string"},
		{"frontchannel_logout_uri", "FrontchannelLogoutURI", "string"},
		{"frontchannel_logout_session_required", "FrontchannelLogoutSessionRequired", "bool"},
		{"backchannel_logout_uri", "BackchannelLogoutURI", "string"},
		{"backchannel_logout_session_required", "BackchannelLogoutSessionRequired", "bool"},
		{"post_logout_redirect_uris", "PostLogoutRedirectURIs", "[]string"},
		{"authorization_details_types", "AuthorizationDetailsTypes", "[]string"},
		{"client_registration_types", "ClientRegistrationTypes", "[]string"},
		{"signed_jwks_uri", "SignedJWKSURI", "string"},
		{"jwks_uri", "JWKSURI", "string"},
		{"jwks", "JWKS", "*jwks.JWKS"},
		{"display_name", "DisplayName", "string"},
		{"description", "Description", "string"},
		{"keywords", "Keywords", "[]string"},
		{"information_uri", "InformationURI", "string"},
		{"organization_name", "OrganizationName", "string"},
		{"organization_uri", "OrganizationURI", "string"},
	},
	"OpenIDProviderMetadata": {
		{"issuer", "Issuer", "string"},
		{"authorization_endpoint", "AuthorizationEndpoint", "string"},
		{"token_endpoint", "TokenEndpoint", "string"},
		{"userinfo_endpoint", "UserinfoEndpoint", "string"},
		{"registration_endpoint", "RegistrationEndpoint", "string"},
		{"scopes_supported", "ScopesSupported", "[]string"},
		{"response_types_supported", "ResponseTypesSupported", "[]string"},
		{"response_modes_supported", "ResponseModesSupported", "[]string"},
		{"grant_types_supported", "GrantTypesSupported", "[]string"},
		{"acr_values_supported", "ACRValuesSupported", "[]string"},
		{"subject_types_supported", "SubjectTypesSupported", "[]string"},
		{"id_token_signed_response_alg_values_supported", "IDTokenSignedResponseAlgValuesSupported", "[]string"},
		{"id_token_encrypted_response_alg_values_supported", "IDTokenEncryptedResponseAlgValuesSupported", "[]string"},
		{"id_token_encrypted_response_enc_values_supported", "IDTokenEncryptedResponseEncValuesSupported", "[]string"},
		{"userinfo_signed_response_alg_values_supported", "UserinfoSignedResponseAlgValuesSupported", "[]string"},
		{"userinfo_encrypted_response_alg_values_supported", "UserinfoEncryptedResponseAlgValuesSupported", "[]string"},
		{"userinfo_encrypted_response_enc_values_supported", "UserinfoEncryptedResponseEncValuesSupported", "[]string"},
		{"request_signed_response_alg_values_supported", "RequestSignedResponseAlgValuesSupported", "[]string"},
		{"request_encrypted_response_alg_values_supported", "RequestEncryptedResponseAlgValuesSupported", "[]string"},
		{"request_encrypted_response_enc_values_supported", "RequestEncryptedResponseEncValuesSupported", "[]string"},
		{"token_endpoint_auth_methods_supported", "TokenEndpointAuthMethodsSupported", "[]string"},
		{"token_endpoint_auth_signing_alg_values_supported", "TokenEndpointAuthSigningAlgValuesSupported", "[]string"},
		{"display_values_supported", "DisplayValuesSupported", "[]string"},
		{"claims_supported", "ClaimsSupported", "[]string"},
		{"service_documentation", "ServiceDocumentation", "string"},
		{"claims_locales_supported", "ClaimsLocalesSupported", "[]string"},
		{"ui_locales_supported", "UILocalesSupported", "[]string"},
		{"claims_parameter_supported", "ClaimsParameterSupported", "bool"},
		{"request_parameter_supported", "RequestParameterSupported", "bool"},
		{"request_uri_parameter_supported", "RequestURIParameterSupported", "bool"},
		{"require_request_uri_registration", "RequireRequestURIRegistration", "bool"},
		{"op_policy_uri", "OPPolicyURI", "string"},
		{"op_tos_uri", "OPTOSURI", "string"},
		{"revocation_endpoint", "RevocationEndpoint", "string"},
		{"revocation_endpoint_auth_methods_supported", "RevocationEndpointAuthMethodsSupported", "[]string"},
		{"revocation_endpoint_auth_signing_alg_values_supported", "RevocationEndpointAuthSigningAlgValuesSupported", "[]string"},
		{"introspection_endpoint", "IntrospectionEndpoint", "string"},
		{"introspection_endpoint_auth_methods_supported", "IntrospectionEndpointAuthMethodsSupported", "[]string"},
		{"introspection_endpoint_auth_signing_alg_values_supported", "IntrospectionEndpointAuthSigningAlgValuesSupported", "[]string"},
		{"introspection_signing_alg_values_supported", "IntrospectionSigningAlgValuesSupported", "[]string"},
		{"introspection_encryption_alg_values_supported", "IntrospectionEncryptionAlgValuesSupported", "[]string"},
		{"introspection_encryption_enc_values_supported", "IntrospectionEncryptionEncValuesSupported", "[]string"},
		{"code_challenge_methods_supported", "CodeChallengeMethodsSupported", "[]string"},
		{"signed_metadata", "SignedMetadata", "string"},
		{"device_authorization_endpoint", "DeviceAuthorizationEndpoint", "string"},
		{"tls_client_certificate_bound_access_tokens", "TLSClientCertificateBoundAccessTokens", "bool"},
		{"mtls_endpoint_aliases", "MTLSEndpointAliases", "map[string]string"},
		{"nfv_token_signing_alg_values_supported", "NFVTokenSigningAlgValuesSupported", "[]string"},
		{"nfv_token_encryption_alg_values_supported", "NFVTokenEncryptionAlgValuesSupported", "[]string"},
		{"nfv_token_encryption_enc_values_supported", "NFVTokenEncryptionEncValuesSupported", "[]string"},
		{"require_signed_request_object", "RequireSignedRequestObject", "bool"},
		{"pushed_authorization_request_endpoint", "PushedAuthorizationRequestEndpoint", "string"},
		{"require_pushed_authorization_requests", "RequirePushedAuthorizationRequests", "bool"},
		{"authorization_response_iss_parameter_supported", "AuthorizationResponseIssParameterSupported", "bool"},
		{"check_session_iframe", "CheckSessionIFrame", "string"},
		{"frontchannel_logout_supported", "FrontchannelLogoutSupported", "bool"},
		{"backchannel_logout_supported", "BackchannelLogoutSupported", "bool"},
		{"backchannel_logout_session_supported", "BackchannelLogoutSessionSupported", "bool"},
		{"end_session_endpoint", "EndSessionEndpoint", "string"},
		{"backchannel_token_delivery_modes_supported", "BackchannelTokenDeliveryModesSupported", "[]string"},
		{"backchannel_authentication_endpoint", "BackchannelAuthenticationEndpoint", "string"},
		{"backchannel_authentication_request_signing_alg_values_supported", "BackchannelAuthenticationRequestSigningAlgValuesSupported", "[]string"},
		{"backchannel_user_code_parameter_supported", "BackchannelUserCodeParameterSupported", "bool"},
		{"authorization_details_types_supported", "AuthorizationDetailsTypesSupported", "[]string"},
		{"client_registration_types_supported", "ClientRegistrationTypesSupported", "[]string"},
		{"federation_registration_endpoint", "FederationRegistrationEndpoint", "string"},
		{"request_authentication_methods_supported", "RequestAuthenticationMethodsSupported", "map[string][]string"},
		{"request_authentication_signing_alg_values_supported", "RequestAuthenticationSigningAlgValuesSupported", "[]string"},
		{"signed_jwks_uri", "SignedJWKSURI", "string"},
		{"jwks_uri", "JWKSURI", "string"},
		{"jwks", "JWKS", "*jwks.JWKS"},
		{"display_name", "DisplayName", "string"},
		{"description", "Description", "string"},
		{"keywords", "Keywords", "[]string"},
		{"contacts", "Contacts", "[]string"},
		{"logo_uri", "LogoURI", "string"},
		{"policy_uri", "PolicyURI", "string"},
		{"information_uri", "InformationURI", "string"},
		{"organization_name", "OrganizationName", "string"},
		{"organization_uri", "OrganizationURI", "string"},
	},
	"OAuthProtectedResourceMetadata": {
		{"resource", "Resource", "string"},
		{"authorization_servers", "AuthorizationServers", "[]string"},
		{"scopes_supported", "ScopesSupported", "[]string"},
		{"bearer_methods_supported", "BearerMethodsSupported", "[]string"},
		{"resource_signing_alg_values_supported", "ResourceSigningAlgValuesSupported", "[]string"},
		{"resource_encryption_alg_values_supported", "ResourceEncryptionAlgValuesSupported", "[]string"},
		{"resource_encryption_enc_values_supported", "ResourceEncryptionEncValuesSupported", "[]string"},
		{"resource_name", "ResourceName", "string"},
		{"resource_documentation", "ResourceDocumentation", "string"},
		{"resource_policy_uri", "ResourcePolicyURI", "string"},
		{"resource_tos_uri", "ResourceTOSURI", "string"},
		{"signed_jwks_uri", "SignedJWKSURI", "string"},
		{"jwks_uri", "JWKSURI", "string"},
		{"jwks", "JWKS", "*jwks.JWKS"},
		{"display_name", "DisplayName", "string"},
		{"description", "Description", "string"},
		{"keywords", "Keywords", "[]string"},
		{"contacts", "Contacts", "[]string"},
		{"logo_uri", "LogoURI", "string"},
		{"policy_uri", "PolicyURI", "string"},
		{"information_uri", "InformationURI", "string"},
		{"organization_name", "OrganizationName", "string"},
		{"organization_uri", "OrganizationURI", "string"},
	},
	"TrustMark": {
		{"iss", "Issuer", "string"},
		{"sub", "Subject", "string"},
		{"trust_mark_type", "TrustMarkType", "string"},
		{"iat", "IssuedAt", "unixtime.Unixtime"},
		{"logo_uri", "LogoURI", "string"},
		{"exp", "ExpiresAt", "*unixtime.Unixtime"},
		{"ref", "Ref", "string"},
		{"delegation", "DelegationJWT", "string"},
	},
	"TrustMarkInfo": {
		{"trust_mark_type", "TrustMarkType", "string"},
		{"trust_mark", "TrustMarkJWT", "string"},
	},
	"DelegationJWT": {
		{"iss", "Issuer", "string"},
		{"sub", "Subject", "string"},
		{"trust_mark_type", "TrustMarkType", "string"},
		{"iat", "IssuedAt", "unixtime.Unixtime"},
		{"exp", "ExpiresAt", "*unixtime.Unixtime"},
		{"ref", "Ref", "string"},
	},
	"ResolveResponse": {
		{"iss", "Issuer", "string"},
		{"sub", "Subject", "string"},
		{"iat", "IssuedAt", "unixtime.Unixtime"},
		{"exp", "ExpiresAt", "unixtime.Unixtime"},
		{"aud", "Audience", "string"},
	},
	"ResolveResponsePayload": {
		{"metadata", "Metadata", "*Metadata"},
		{"trust_marks", "TrustMarks", "TrustMarkInfos"},
		{"trust_chain", "TrustChain", "JWSMessages"},
	},
	"TrustMarkSpec": {
		{"trust_mark_type", "TrustMarkType", "string"},
		{"lifetime", "Lifetime", "unixtime.DurationInSeconds"},
		{"ref", "Ref", "string"},
		{"logo_uri", "LogoURI", "string"},
		{"include_extra_claims_in_info", "IncludeExtraClaimsInInfo", "bool"},
		{"delegation_jwt", "DelegationJWT", "string"},
	},
	"CollectedEntity": {
		{"entity_id", "EntityID", "string"},
		{"trust_marks", "TrustMarks", "TrustMarkInfos"},
		{"trust_chain", "TrustChain", "JWSMessages"},
		{"entity_types", "EntityTypes", "[]string"},
		{"ui_infos", "UIInfos", "map[string]UIInfo"},
	},
	"UIInfo": {
		{"display_name", "DisplayName", "string"},
		{"description", "Description", "string"},
		{"keywords", "Keywords", "[]string"},
		{"logo_uri", "LogoURI", "string"},
		{"policy_uri", "PolicyURI", "string"},
		{"information_uri", "InformationURI", "string"},
	},
}
