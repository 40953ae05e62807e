------------------------------ MODULE MCCatalog ------------------------------
EXTENDS Catalog
H1 == <<"h1">>
H2 == <<"h1", "h2">>
H3 == <<"h1", "h2", "h3">>
=============================================================================
