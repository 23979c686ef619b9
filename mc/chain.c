// A plugin that needs others: P16 loads copies of it, compiled with ID (who it is) and MASK (whom
// it needs). With THROW it looks for them when it is entered, else the loader looks for them.
void mcChain(int id, int mask);
__attribute__((visibility("default"))) void ParameterFrameworkPluginEntryPointMagicV1(void *library, void *logger)
{
    (void)library, (void)logger;
#ifdef THROW
    mcChain(ID, MASK);
#else
    mcChain(ID, 0);
#endif
}
